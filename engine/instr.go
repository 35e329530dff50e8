package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	pos, end int
	text     string
	seq      int
}

type stubInfo struct {
	target string
	pkg    string // package path of the stub
	name   string
}

// instrument writes replayable copies of the repository packages' sources and
// returns overlay entries. With plain set, only stub calls are redirected.
func instrument(P *Program, E *Env, overlay map[string]string, stubs []stubInfo, dir string, plain bool) (map[string]string, error) {
	out := map[string]string{}
	for k, v := range overlay {
		out[k] = v
	}
	byTarget := map[string]stubInfo{}
	for _, s := range stubs {
		byTarget[s.target] = s
	}
	n := 0
	for _, path := range P.order {
		if !E.instrumented(path) {
			continue
		}
		lp := P.pkgs[path]
		if !lp.full {
			continue
		}
		for i, af := range lp.files {
			full := lp.paths[i]
			read := full
			if r, ok := overlay[full]; ok {
				read = r
			}
			src, err := os.ReadFile(read)
			if err != nil {
				return nil, err
			}
			in := &instrumenter{P: P, E: E, lp: lp, file: af, stubs: byTarget, plain: plain, src: src, tf: P.fset.File(af.Pos())}
			in.run()
			if len(in.edits) == 0 {
				continue
			}
			res := in.apply()
			n++
			dst := filepath.Join(dir, fmt.Sprintf("f%d_%s", n, filepath.Base(full)))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				return nil, err
			}
			out[full] = dst
		}
	}
	return out, nil
}

type instrumenter struct {
	P      *Program
	E      *Env
	lp     *loadedPkg
	file   *ast.File
	stubs  map[string]stubInfo
	plain  bool
	src    []byte
	tf     *token.File
	edits  []edit
	keep   map[string]bool
	needRT bool
	imps   map[string]bool
	done   map[ast.Node]bool
	nh     int
}

func (in *instrumenter) off(p token.Pos) int { return in.tf.Offset(p) }

func (in *instrumenter) ins(p token.Pos, s string) {
	in.edits = append(in.edits, edit{in.off(p), in.off(p), s, len(in.edits)})
	in.needRT = true
}

func (in *instrumenter) rep(a, b token.Pos, s string) {
	in.edits = append(in.edits, edit{in.off(a), in.off(b), s, len(in.edits)})
	in.needRT = true
}

func (in *instrumenter) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *instrumenter) apply() []byte {
	has := false
	for _, im := range in.file.Imports {
		if im.Name == nil && im.Path.Value == "\"github.com/sisu-network/dheart/verifrt\"" {
			has = true
		}
	}
	if in.needRT && !has {
		in.edits = append(in.edits, edit{in.off(in.file.Name.End()), in.off(in.file.Name.End()), "; import verifrt \"github.com/sisu-network/dheart/verifrt\"", -1})
	}
	for _, p := range sortedKeys(in.imps) {
		in.edits = append(in.edits, edit{in.off(in.file.Name.End()), in.off(in.file.Name.End()), "; import " + stubAlias(p) + " \"" + p + "\"", -1})
	}
	tail := "\n"
	if in.needRT {
		tail += "var _ = verifrt.And\n"
	}
	for _, k := range sortedKeys(in.keep) {
		tail += "var _ = " + k + "\n"
	}
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].pos != in.edits[j].pos {
			return in.edits[i].pos < in.edits[j].pos
		}
		return in.edits[i].seq < in.edits[j].seq
	})
	var out []byte
	last := 0
	for _, e := range in.edits {
		if e.pos < last {
			continue
		}
		out = append(out, in.src[last:e.pos]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, in.src[last:]...)
	return append(out, tail...)
}

func stubAlias(p string) string {
	return "zz" + strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, p)
}

func hasCall(e ast.Node) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			f = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				f = true
			}
		}
		return !f
	})
	return f
}

func (in *instrumenter) calleeObj(c *ast.CallExpr) *types.Func {
	fun := ast.Unparen(c.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = ix.X
	}
	switch f := fun.(type) {
	case *ast.Ident:
		o, _ := in.lp.info.Uses[f].(*types.Func)
		return o
	case *ast.SelectorExpr:
		o, _ := in.lp.info.Uses[f.Sel].(*types.Func)
		return o
	}
	return nil
}

func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return "(" + types.TypeString(r.Type(), nil) + ")." + f.Name()
	}
	if f.Pkg() == nil {
		return f.Name()
	}
	return f.Pkg().Path() + "." + f.Name()
}

var timeFns = map[string]string{"time.Now": "TimeNow", "time.Since": "TimeSince", "time.After": "TimeAfter", "time.Tick": "TimeTick", "time.Sleep": "TimeSleep", "time.NewTimer": "TimeNewTimer", "time.NewTicker": "TimeNewTicker", "time.AfterFunc": "TimeAfterFunc"}

func (in *instrumenter) run() {
	in.keep, in.imps, in.done = map[string]bool{}, map[string]bool{}, map[ast.Node]bool{}
	var stack []ast.Node
	ast.Inspect(in.file, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		var parent ast.Node
		if len(stack) > 0 {
			parent = stack[len(stack)-1]
		}
		in.node(n, parent)
		stack = append(stack, n)
		return true
	})
}

func (in *instrumenter) stubRef(s stubInfo) string {
	if s.pkg == in.lp.lp.ImportPath {
		return s.name
	}
	in.imps[s.pkg] = true
	return stubAlias(s.pkg) + "." + s.name
}

func (in *instrumenter) canRef(pkg string) bool {
	if pkg == in.lp.lp.ImportPath {
		return true
	}
	// allowed when the stub's package does not depend on this one
	sp := in.P.pkgs[pkg]
	if sp == nil {
		return false
	}
	seen := map[string]bool{}
	var dep func(p string) bool
	dep = func(p string) bool {
		if p == in.lp.lp.ImportPath {
			return true
		}
		if seen[p] {
			return false
		}
		seen[p] = true
		if q := in.P.pkgs[p]; q != nil {
			for _, i := range q.lp.Imports {
				if dep(i) {
					return true
				}
			}
		}
		return false
	}
	return !dep(pkg)
}

func (in *instrumenter) inStub(n ast.Node) bool {
	for _, d := range in.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Pos() <= n.Pos() && n.End() <= fd.End() {
			for _, s := range in.stubs {
				if s.pkg == in.lp.lp.ImportPath && s.name == fd.Name.Name && fd.Recv == nil {
					return true
				}
			}
		}
	}
	return false
}

func (in *instrumenter) node(n, parent ast.Node) {
	if in.done[n] {
		return
	}
	info := in.lp.info
	if c, ok := n.(*ast.CallExpr); ok {
		if f := in.calleeObj(c); f != nil {
			key := funcKey(f.Origin())
			if s, ok := in.stubs[key]; ok && in.canRef(s.pkg) && !in.inStub(n) {
				fun := ast.Unparen(c.Fun)
				if sel, ok := fun.(*ast.SelectorExpr); ok && f.Type().(*types.Signature).Recv() != nil {
					// method call: x.M(a) -> stub(x, a)
					amp := ""
					rt := info.TypeOf(sel.X)
					if _, isPtr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); isPtr {
						if _, xp := rt.Underlying().(*types.Pointer); !xp {
							amp = "&"
						}
					} else if _, xp := rt.Underlying().(*types.Pointer); xp {
						amp = "*"
					}
					in.ins(c.Pos(), in.stubRef(s)+"("+amp)
					sep := ""
					if len(c.Args) > 0 {
						sep = ", "
					}
					in.rep(sel.X.End(), c.Lparen+1, sep)
				} else {
					in.rep(c.Fun.Pos(), c.Fun.End(), in.stubRef(s))
					if sel, ok := fun.(*ast.SelectorExpr); ok {
						in.keep[in.text(sel)] = true
					}
				}
				return
			}
		}
	}
	if in.plain {
		return
	}
	switch x := n.(type) {
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if f := in.calleeObj(c); f != nil {
				op := ""
				switch funcKey(f) {
				case "(*sync.Mutex).Lock":
					op = "lock"
				case "(*sync.RWMutex).Lock":
					op = "wlock"
				case "(*sync.RWMutex).RLock":
					op = "rlock"
				case "(*sync.WaitGroup).Wait":
					op = "wait"
				}
				if op != "" {
					in.ins(x.Pos(), "verifrt.Pre(\""+op+"\"); ")
					in.ins(x.End(), "; verifrt.Post()")
				}
			}
		}
	case *ast.SendStmt:
		if cc, ok := parent.(*ast.CommClause); ok && cc.Comm == x {
			return
		}
		if hasCall(x.Value) {
			ch := in.text(x.Chan)
			in.rep(x.Pos(), x.Value.Pos(), "{ zzv := ")
			in.ins(x.End(), "; verifrt.Pre(\"send\"); "+ch+" <- zzv; verifrt.Post() }")
		} else {
			in.ins(x.Pos(), "verifrt.Pre(\"send\"); ")
			in.ins(x.End(), "; verifrt.Post()")
		}
	case *ast.UnaryExpr:
		if x.Op != token.ARROW || in.done[x] {
			return
		}
		fn := "verifrt.Recv("
		switch p := parent.(type) {
		case *ast.AssignStmt:
			if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
				fn = "verifrt.Recv2("
			}
		case *ast.ValueSpec:
			if len(p.Names) == 2 && len(p.Values) == 1 {
				fn = "verifrt.Recv2("
			}
		}
		in.rep(x.OpPos, x.X.Pos(), fn)
		in.ins(x.X.End(), ")")
	case *ast.SelectStmt:
		hasDef := "false"
		idx := 0
		for _, s := range x.Body.List {
			cc := s.(*ast.CommClause)
			if cc.Comm == nil {
				hasDef = "true"
				in.rep(cc.Case, cc.Case+token.Pos(len("default")), "case -1")
				continue
			}
			ast.Inspect(cc.Comm, func(m ast.Node) bool {
				if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					in.done[u] = true
				}
				return true
			})
			hoist := func(e ast.Expr) {
				if !hasCall(e) {
					return
				}
				in.nh++
				v := fmt.Sprintf("zzc%d", in.nh)
				txt := in.text(e)
				for k, r := range timeFns {
					if strings.Contains(txt, k+"(") {
						txt = strings.ReplaceAll(txt, k+"(", "verifrt."+r+"(")
						in.keep[k] = true
					}
				}
				in.ins(x.Select, v+" := "+txt+"; ")
				in.rep(e.Pos(), e.End(), v)
				ast.Inspect(e, func(m ast.Node) bool { in.done[m] = true; return true })
			}
			switch st := cc.Comm.(type) {
			case *ast.SendStmt:
				hoist(st.Chan)
				hoist(st.Value)
			case *ast.ExprStmt:
				hoist(ast.Unparen(st.X).(*ast.UnaryExpr).X)
			case *ast.AssignStmt:
				hoist(ast.Unparen(st.Rhs[0]).(*ast.UnaryExpr).X)
			}
			in.ins(cc.Case+4, fmt.Sprintf(" %d: ", idx))
			in.rep(cc.Colon, cc.Colon+1, "; verifrt.Post();")
			idx++
		}
		if len(x.Body.List) == 1 && hasDef == "false" {
			// go/ssa compiles it to a plain operation
			op := "recv"
			if _, ok := x.Body.List[0].(*ast.CommClause).Comm.(*ast.SendStmt); ok {
				op = "send"
			}
			in.rep(x.Select, x.Select+6, "switch verifrt.Sel1(\""+op+"\")")
			return
		}
		in.rep(x.Select, x.Select+6, "switch verifrt.Sel("+hasDef+")")
	case *ast.RangeStmt:
		t := info.TypeOf(x.X)
		switch t.Underlying().(type) {
		case *types.Chan:
			k := "_"
			if x.Key != nil {
				k = in.text(x.Key)
			}
			ch := in.text(x.X)
			tok := ":="
			if x.Key != nil && x.Tok == token.ASSIGN {
				in.rep(x.For, x.Body.Lbrace, "var zzok bool; for "+k+", zzok = verifrt.Recv2("+ch+"); zzok; "+k+", zzok = verifrt.Recv2("+ch+") ")
				return
			}
			in.rep(x.For, x.Body.Lbrace, "for "+k+", zzok "+tok+" verifrt.Recv2("+ch+"); zzok; "+k+", zzok = verifrt.Recv2("+ch+") ")
		case *types.Map:
			if hasCall(x.X) || x.Tok == token.ASSIGN {
				return
			}
			k, v := "_", ""
			if x.Key != nil {
				k = in.text(x.Key)
			}
			if x.Value != nil && in.text(x.Value) != "_" {
				v = in.text(x.Value)
			}
			mp := in.text(x.X)
			if k == "_" {
				k = "zzk"
			}
			in.rep(x.For, x.Body.Lbrace, "for _, "+k+" := range verifrt.Keys("+mp+") ")
			body := ""
			if v != "" {
				body = v + ", zzok := " + mp + "[" + k + "]; if !zzok { continue }; "
			} else {
				body = "if _, zzok := " + mp + "[" + k + "]; !zzok { continue }; "
			}
			in.ins(x.Body.Lbrace+1, body)
		}
	case *ast.GoStmt:
		sig, ok := info.TypeOf(x.Call.Fun).Underlying().(*types.Signature)
		if !ok || sig.Variadic() {
			return
		}
		r := ""
		if sig.Results().Len() == 1 {
			r = "R"
		}
		in.ins(x.Call.Fun.Pos(), fmt.Sprintf("verifrt.W%d%s(", sig.Params().Len(), r))
		in.ins(x.Call.Fun.End(), ")")
	case *ast.CallExpr:
		f := in.calleeObj(x)
		if f == nil {
			return
		}
		key := funcKey(f)
		if r, ok := timeFns[key]; ok {
			in.rep(x.Fun.Pos(), x.Fun.End(), "verifrt."+r)
			in.keep[in.text(x.Fun)] = true
			return
		}
		if strings.HasPrefix(key, "(*go.uber.org/atomic.") || strings.HasPrefix(key, "(*sync/atomic.") {
			sel, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr)
			if !ok {
				return
			}
			amp := "&"
			if _, isPtr := info.TypeOf(sel.X).Underlying().(*types.Pointer); isPtr {
				amp = ""
			}
			in.ins(sel.X.Pos(), "verifrt.P("+amp)
			in.ins(sel.X.End(), ")")
		} else if strings.HasPrefix(key, "sync/atomic.") && len(x.Args) > 0 {
			in.ins(x.Args[0].Pos(), "verifrt.P(")
			in.ins(x.Args[0].End(), ")")
		}
		switch key {
		case "(*time.Timer).Stop", "(*time.Ticker).Stop":
			if sel, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok && key == "(*time.Timer).Stop" {
				in.ins(x.Pos(), "verifrt.TimerStop(")
				in.rep(sel.X.End(), x.Lparen+1, "")
			} else if ok {
				in.ins(x.Pos(), "verifrt.TickerStop(")
				in.rep(sel.X.End(), x.Lparen+1, "")
			}
		}
	}
}
