package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) push(st *State) {
	if !st.dead {
		e.wl = append(e.wl, st)
	}
}

// explore runs the states to their ends and returns the terminal ones.
func (e *Engine) explore(init []*State) []*State {
	return e.exploreF(func() {
		for i := len(init) - 1; i >= 0; i-- {
			e.push(init[i])
		}
	})
}

func (e *Engine) exploreF(start func()) []*State {
	savedWl, savedT := e.wl, e.terms
	e.wl, e.terms = nil, nil
	e.depth++
	start()
	for len(e.wl) > 0 {
		st := e.wl[len(e.wl)-1]
		e.wl = e.wl[:len(e.wl)-1]
		e.run(st)
		e.paths++
		if e.paths > e.maxPaths {
			e.fail("path budget exceeded")
			break
		}
		if e.expired() {
			e.fail("time budget exceeded")
			break
		}
	}
	r := e.terms
	e.wl, e.terms = savedWl, savedT
	e.depth--
	return r
}

func (e *Engine) terminal(st *State) { e.terms = append(e.terms, st) }

func (e *Engine) run(st *State) {
	for !st.dead {
		fr := st.top()
		if fr.pc >= len(fr.block.Instrs) {
			e.unsupported(st, "fell off block")
			return
		}
		in := fr.block.Instrs[fr.pc]
		fr.pc++
		e.steps++
		if traceAll {
			fmt.Fprintf(os.Stderr, "%*s%s: %s\n", len(st.frames), "", fr.fn.Name(), in)
		}
		ok := e.exec(st, fr, in)
		if v, is := in.(ssa.Value); traceAll && is {
			fmt.Fprintln(os.Stderr, "      ", v.Name(), fr.regs[v])
		}
		if !ok {
			return
		}
	}
}

var traceAll = os.Getenv("GVTRACE") != ""

type unsup struct{ msg string }

func (e *Engine) unsupported(st *State, f string, a ...any) {
	pos := ""
	if len(st.frames) > 0 {
		fr := st.top()
		pos = fr.fn.String()
	}
	e.fail(fmt.Sprintf(f, a...) + " in " + pos)
	st.dead = true
}

func (e *Engine) fnTerm(fv *FnVal, hint string) *Term {
	t := e.c.Alloc("fn." + hint)
	e.fnTab[t] = fv
	return t
}

func (e *Engine) staticFn(fn *ssa.Function) *Term {
	if t, ok := e.fnConst[fn]; ok {
		return t
	}
	t := e.c.mk("glob", "Int", "fn."+fn.String(), big.NewInt(int64(500000000+len(e.fnConst))))
	e.fnConst[fn] = t
	e.fnTab[t] = &FnVal{fn: fn}
	return t
}

func (e *Engine) constVal(cv *ssa.Const) Val {
	t := cv.Type()
	if cv.Value == nil {
		return e.zero(t)
	}
	switch cv.Value.Kind() {
	case constant.Bool:
		return Val{e.c.Bool(constant.BoolVal(cv.Value))}
	case constant.String:
		return Val{e.c.Str(constant.StringVal(cv.Value))}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{e.c.App("f64."+cv.Value.String(), "F64")}
		}
		n, _ := new(big.Int).SetString(cv.Value.ExactString(), 10)
		return Val{e.c.BigInt(n)}
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n, _ := new(big.Int).SetString(constant.ToInt(cv.Value).ExactString(), 10)
			return Val{e.c.BigInt(n)}
		}
		return Val{e.c.App("f64."+cv.Value.String(), "F64")}
	}
	return e.zero(t)
}

func (e *Engine) val(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return Val{e.global(x)}
	case *ssa.Function:
		return Val{e.staticFn(x)}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				if i < len(fr.free) {
					return fr.free[i]
				}
				break
			}
		}
		return e.freshVal(st, x.Name(), x.Type())
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.regs[v]
	if !ok {
		e.unsupported(st, "no value for %s", v.Name())
		return e.zero(v.Type())
	}
	return r
}

func (e *Engine) global(g *ssa.Global) *Term {
	if t, ok := e.globs[g]; ok {
		return t
	}
	name := g.Name()
	if g.Pkg != nil && g.Pkg != e.pkg {
		name = g.Pkg.Pkg.Path() + "." + name
	}
	t := e.c.mk("glob", "Int", name, big.NewInt(int64(400000000+len(e.globs))))
	e.globs[g] = t
	return t
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := e.fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (e *Engine) exec(st *State, fr *Frame, in ssa.Instruction) bool {
	c := e.c
	set := func(v ssa.Value, x Val) { fr.regs[v] = x }
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := c.Alloc(i.Comment)
		et := i.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok && isByte(at.Elem()) {
			n := at.Len()
			if n <= 64 {
				e.writeComp(st, "bytes", []*Term{a}, c.Str(string(make([]byte, n))))
			} else {
				e.writeComp(st, "bytes", []*Term{a}, e.zeros(st, c.Int(n)))
			}
		}
		set(i, Val{a})
	case *ssa.FieldAddr:
		p := e.val(st, fr, i.X)
		if !e.derefOK(st, fr, p[0], i.Pos(), i.X) {
			return !st.dead
		}
		stt := i.X.Type().Underlying().(*types.Pointer).Elem()
		set(i, Val{faTerm(e, p[0], stt, i.Field)})
	case *ssa.Field:
		x := e.val(st, fr, i.X)
		if s := expandStruct(i.X.Type()); s != nil {
			o := 0
			for k := 0; k < i.Field; k++ {
				o += len(e.layout(s.Field(k).Type()))
			}
			n := len(e.layout(s.Field(i.Field).Type()))
			set(i, x[o:o+n])
		} else {
			set(i, e.pureVal(st, "fld."+typeKey(i.X.Type())+fmt.Sprint(i.Field), i.Type(), x))
		}
	case *ssa.IndexAddr:
		return e.execIndexAddr(st, fr, i)
	case *ssa.Index:
		x := e.val(st, fr, i.X)
		k := e.val(st, fr, i.Index)[0]
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			n := len(e.layout(u.Elem()))
			if k.op == "int" {
				j := int(k.ival.Int64()) * n
				set(i, x[j:j+n])
			} else {
				r := append(Val{}, x[:n]...)
				for q := int64(1); q < u.Len(); q++ {
					for z := 0; z < n; z++ {
						r[z] = c.Ite(c.Eq(k, c.Int(q)), x[int(q)*n+z], r[z])
					}
				}
				set(i, r)
			}
		case *types.Basic: // string
			if !e.boundsOK(st, k, c.Len(x[0]), i.Pos(), "index out of range") {
				return false
			}
			v := Val{e.byteAt(x[0], k)}
			e.byteRange(st, v[0])
			set(i, v)
		default:
			e.unsupported(st, "Index of %s", i.X.Type())
			return false
		}
	case *ssa.Slice:
		return e.execSlice(st, fr, i)
	case *ssa.UnOp:
		return e.execUnOp(st, fr, i)
	case *ssa.BinOp:
		return e.execBinOp(st, fr, i)
	case *ssa.Phi:
		e.unsupported(st, "stray phi")
		return false
	case *ssa.Store:
		p := e.val(st, fr, i.Addr)[0]
		v := e.val(st, fr, i.Val)
		if !e.derefOK(st, fr, p, i.Pos(), i.Addr) {
			return !st.dead
		}
		if ia, ok := i.Addr.(*ssa.IndexAddr); ok && !e.inContract(st) {
			if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok {
				if h := e.hooks["onelemset:"+typeKey(sl.Elem())]; h != nil && !e.inside(st, h) && len(h.Params) == 3 {
					e.store(st, p, i.Val.Type(), v)
					e.enter(st, h, []Val{e.val(st, fr, ia.X), e.val(st, fr, ia.Index), v}, nil, false, func(s2 *State, _ Val) { e.push(s2) })
					return false
				}
			}
		}
		e.store(st, p, i.Val.Type(), v)
	case *ssa.ChangeType:
		set(i, e.val(st, fr, i.X))
	case *ssa.ChangeInterface:
		v := e.val(st, fr, i.X)
		if u, ok := i.X.Type().Underlying().(*types.Interface); ok && u.NumMethods() > 0 && v[0].op != "box" && !e.noSolve {
			st.assume(e, c.Or(c.IsNil(v[0]), e.implements(v[0], i.X.Type())))
			for _, f := range e.pendingFacts {
				st.assume(e, f)
			}
			e.pendingFacts = nil
		}
		set(i, v)
	case *ssa.Convert:
		set(i, e.convert(st, i.X.Type(), i.Type(), e.val(st, fr, i.X)))
	case *ssa.MultiConvert:
		set(i, e.convert(st, i.X.Type(), i.Type(), e.val(st, fr, i.X)))
	case *ssa.MakeInterface:
		x := e.val(st, fr, i.X)
		set(i, Val{c.Box(typeKey(i.X.Type()), x...)})
		e.regBox(i.X.Type())
	case *ssa.MakeClosure:
		fv := &FnVal{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.bind = append(fv.bind, e.val(st, fr, b))
		}
		set(i, Val{e.fnTerm(fv, i.Fn.Name())})
	case *ssa.MakeMap:
		m := c.Alloc("map")
		e.compOf("maplen", "Int", []*Term{m})
		set(i, Val{m})
	case *ssa.MakeChan:
		ch := c.Alloc("chan")
		n := e.val(st, fr, i.Size)[0]
		if e.panics(st) && !n.isConst() {
			if !e.panicUnless(st, c.Le(c.Int(0), n), i.Pos(), "makechan: size out of range") {
				return false
			}
		}
		e.writeComp(st, "chancap", []*Term{ch}, n)
		e.writeComp(st, "chanclosed", []*Term{ch}, c.False)
		st.queues[ch] = &queue{exact: true, cap: n}
		set(i, Val{ch})
	case *ssa.MakeSlice:
		n := e.val(st, fr, i.Len)[0]
		cp := e.val(st, fr, i.Cap)[0]
		if e.panics(st) && !n.isConst() {
			// the run time refuses lengths beyond the address space
			lim, _ := new(big.Int).SetString("281474976710656", 10)
			if !e.panicUnless(st, c.And(c.Le(c.Int(0), n), c.Le(n, c.BigInt(lim))), i.Pos(), "makeslice: len out of range") {
				return false
			}
		}
		if e.panics(st) && cp != n {
			if !e.panicUnless(st, c.And(c.Le(n, cp), c.Le(c.Int(0), cp)), i.Pos(), "makeslice: cap out of range") {
				return false
			}
		}
		a := c.Alloc("slice")
		if isByteSlice(i.Type()) {
			if cp.op == "int" && cp.ival.IsInt64() && cp.ival.Int64() <= 64 {
				e.writeComp(st, "bytes", []*Term{a}, c.Str(string(make([]byte, cp.ival.Int64()))))
			} else {
				e.writeComp(st, "bytes", []*Term{a}, e.zeros(st, cp))
			}
		}
		st.assume(e, c.Le(c.Int(0), n))
		set(i, Val{a, c.Int(0), n, cp})
	case *ssa.MapUpdate:
		m := e.val(st, fr, i.Map)[0]
		if !e.panicUnless(st, c.Not(c.Eq(m, c.Int(0))), i.Pos(), "assignment to entry in nil map") {
			return false
		}
		e.onMapAccess(st, m, i.Map.Type(), true, i.Pos())
		mk, mv := e.val(st, fr, i.Key), e.val(st, fr, i.Value)
		if e.mapHook(st, "onmapwrite", i.Map.Type(), []Val{{m}, mk, mv}) != nil {
			e.mapHooked(st, "onmapwrite", i.Map.Type(), []Val{{m}, mk, mv}, func(s2 *State) {
				e.mapSet(s2, i.Map.Type(), m, mk, mv)
				e.push(s2)
			})
			return false
		}
		e.mapSet(st, i.Map.Type(), m, mk, mv)
	case *ssa.Lookup:
		x := e.val(st, fr, i.X)
		k := e.val(st, fr, i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			if !e.boundsOK(st, k[0], c.Len(x[0]), i.Pos(), "index out of range") {
				return false
			}
			v := Val{e.byteAt(x[0], k[0])}
			e.byteRange(st, v[0])
			set(i, v)
			return true
		}
		mt := i.X.Type()
		e.onMapAccess(st, x[0], mt, false, i.Pos())
		has := e.mapHas(st, mt, x[0], k)
		v := e.mapGet(st, mt, x[0], k)
		z := e.zero(mt.Underlying().(*types.Map).Elem())
		if e.inContract(st) && e.mapHook(st, "onmapread", mt, []Val{x, k, v}) == nil {
			r := make(Val, len(v))
			for j := range v {
				r[j] = c.Ite(has, v[j], z[j])
			}
			if i.CommaOk {
				r = append(r, has)
			}
			set(i, r)
			return true
		}
		// fork on presence: keeps terms small
		return e.branch(st, has, func(s2 *State, yes bool) {
			f2 := s2.top()
			r := append(Val{}, v...)
			if !yes {
				r = append(Val{}, z...)
			} else {
				e.onLoaded(s2, "", nil, nil)
			}
			if i.CommaOk {
				r = append(r, c.Bool(yes))
			}
			f2.regs[i] = r
			if yes {
				e.mapHooked(s2, "onmapread", mt, []Val{x, k, v}, func(s3 *State) { e.push(s3) })
			} else {
				e.push(s2)
			}
		})
	case *ssa.Extract:
		x := e.val(st, fr, i.Tuple)
		tt := i.Tuple.Type().(*types.Tuple)
		o := 0
		for k := 0; k < i.Index; k++ {
			o += len(e.layout(tt.At(k).Type()))
		}
		n := len(e.layout(tt.At(i.Index).Type()))
		if o+n > len(x) {
			e.unsupported(st, "extract %s", i)
			return false
		}
		set(i, x[o:o+n])
	case *ssa.TypeAssert:
		return e.execTypeAssert(st, fr, i)
	case *ssa.Range:
		x := e.val(st, fr, i.X)
		it := c.Alloc("iter")
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			e.onMapAccess(st, x[0], i.X.Type(), false, i.Pos())
			hs := map[string]*layer{}
			for k, v := range st.heap {
				hs[k] = v
			}
			st.iters[it] = &iter{mt: i.X.Type(), m: x[0], it: it, kind: "map", heap: hs}
		} else {
			st.iters[it] = &iter{mt: i.X.Type(), m: x[0], it: it, kind: "string"}
		}
		set(i, Val{it})
	case *ssa.Next:
		return e.execNext(st, fr, i)
	case *ssa.Send:
		ch := e.val(st, fr, i.Chan)[0]
		x := e.val(st, fr, i.X)
		return e.chanSend(st, ch, i.Chan.Type(), x, i.Pos(), func(s2 *State) { e.push(s2) })
	case *ssa.Select:
		return e.execSelect(st, fr, i)
	case *ssa.Call:
		return e.call(st, i.Common(), i.Pos(), false, func(s2 *State, v Val) {
			s2.top().regs[i] = v
			e.push(s2)
		})
	case *ssa.Go:
		return e.execGo(st, fr, i)
	case *ssa.Defer:
		d, ok := e.prepCall(st, fr, i.Common())
		if !ok {
			return false
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		e.lateLoads(st, fr)
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			fr.pc--
			return e.invoke(st, d, i.Pos(), true, func(s2 *State, v Val) { e.push(s2) })
		}
	case *ssa.Panic:
		v := e.val(st, fr, i.X)
		e.goPanic(st, v[0], i.Pos(), "explicit panic")
		return false
	case *ssa.Return:
		e.lateLoads(st, fr)
		var r Val
		for _, x := range i.Results {
			r = append(r, e.val(st, fr, x)...)
		}
		e.doReturn(st, r)
		return false
	case *ssa.Jump:
		e.goTo(st, fr, fr.block.Succs[0])
		return false
	case *ssa.If:
		cond := e.val(st, fr, i.Cond)[0]
		tb, fb := fr.block.Succs[0], fr.block.Succs[1]
		return e.branch(st, cond, func(s2 *State, yes bool) {
			f2 := s2.top()
			if !cond.isConst() {
				s2.note("%s: %s", e.pos(i.Cond.Pos()), map[bool]string{true: "true", false: "false"}[yes])
			}
			if yes {
				e.goTo(s2, f2, tb)
			} else {
				e.goTo(s2, f2, fb)
			}
		})
	case *ssa.SliceToArrayPointer:
		e.unsupported(st, "SliceToArrayPointer")
		return false
	default:
		e.unsupported(st, "instruction %T", in)
		return false
	}
	return !st.dead
}

func (e *Engine) zeros(st *State, n *Term) *Term {
	t := e.c.App("zeros", "String", n)
	// solvers build models of strings, so the length of long ones is left open
	if n.op != "int" || n.ival.IsInt64() && n.ival.Int64() <= 512 {
		st.assume(e, e.c.Eq(e.c.Len(t), n))
	}
	return t
}

func (e *Engine) byteRange(st *State, t *Term) {
	if !t.isConst() {
		st.assume(e, e.c.Le(e.c.Int(0), t))
		st.assume(e, e.c.Le(t, e.c.Int(255)))
	}
}

// fork splits on cond and continues the current instruction stream in both branches.
func (e *Engine) fork(st *State, cond *Term, why string, f func(st *State, yes bool)) bool {
	return e.branch(st, cond, func(s2 *State, yes bool) {
		f(s2, yes)
		e.push(s2)
	})
}

// branch splits on cond; f continues each feasible side.
func (e *Engine) branch(st *State, cond *Term, f func(st *State, yes bool)) bool {
	cond = st.known(e, cond)
	if cond == e.c.True {
		f(st, true)
		return false
	}
	if cond == e.c.False {
		f(st, false)
		return false
	}
	ncond := e.c.Not(cond)
	t, n := true, true
	if !e.noSolve {
		if r := e.s.Check(st.facts, cond, e.feasTO); r == "unsat" {
			t = false
		} else if r := e.s.Check(st.facts, ncond, e.feasTO); r == "unsat" {
			n = false
		}
	}
	if t && n {
		s2 := st.clone()
		s2.assume(e, ncond)
		st.assume(e, cond)
		// the true side is explored first: push order is LIFO
		if !s2.dead {
			f(s2, false)
		}
		if !st.dead {
			f(st, true)
		}
		return false
	}
	if t {
		st.assume(e, cond)
		f(st, true)
		return false
	}
	st.assume(e, ncond)
	f(st, false)
	return false
}

// goTo transfers control to block b of the top frame.
func (e *Engine) goTo(st *State, fr *Frame, b *ssa.BasicBlock) {
	from := fr.block
	// leave loops
	for len(fr.loops) > 0 {
		lc := fr.loops[len(fr.loops)-1]
		if lc.l.body[b] {
			break
		}
		if lc.dry {
			return // path leaves a loop under analysis
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	// phis
	var pi int
	for k, p := range b.Preds {
		if p == from {
			pi = k
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.val(st, fr, p.Edges[pi]))
	}
	for k, p := range phis {
		fr.regs[p] = vals[k]
	}
	fr.prev = from
	fr.block = b
	fr.pc = len(phis)
	if st.dead {
		return
	}
	if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].l.header == b {
		lc := fr.loops[len(fr.loops)-1]
		if lc.dry {
			st.backOf = lc
			e.terminal(st)
		} else if lc.final != nil {
			lc.final(st)
		}
		return
	}
	if l := e.loopsOf(fr.fn)[b]; l != nil && !e.concrete(st, fr, b, len(phis)) {
		e.processLoop(st, l)
		return
	}
	e.push(st)
}

// concrete tells whether the condition of a loop is known and at most a few rounds from its bound: such a loop is
// executed round by round, nothing is abstracted.
func (e *Engine) concrete(st *State, fr *Frame, b *ssa.BasicBlock, from int) bool {
	s := st.clone()
	f := s.top()
	counted := false
	for _, in := range b.Instrs[from:] {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			x, y := e.val(s, f, in.X), e.val(s, f, in.Y)
			if len(x) != 1 || len(y) != 1 || x[0].op != "int" || y[0].op != "int" {
				return false
			}
			if d := y[0].ival.Int64() - x[0].ival.Int64(); d > 4 || d < -4 {
				return false
			}
			e.exec(s, f, in)
			counted = true
		case *ssa.If:
			c := e.val(s, f, in.Cond)[0]
			return counted && (c.op == "true" || c.op == "false")
		default:
			return false
		}
	}
	return false
}

func (e *Engine) doReturn(st *State, r Val) {
	fr := st.top()
	for _, lc := range fr.loops {
		if lc.dry {
			return
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if fr.onRet != nil {
		fr.onRet(st, r)
		return
	}
	st.ret = true
	st.result = r
	e.terminal(st)
}

// panics reports whether run-time panics have to be followed in this state.
func (e *Engine) panics(st *State) bool {
	if st.flags["panics"] {
		return true
	}
	for _, f := range st.frames {
		for _, d := range f.defers {
			if d.fv != nil && d.fv.fn != nil && e.recovers(d.fv.fn) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) recovers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// panicUnless continues st with cond assumed; the violating side panics where panics are followed.
func (e *Engine) panicUnless(st *State, cond *Term, pos token.Pos, what string) bool {
	cond = st.known(e, cond)
	if cond == e.c.True {
		return true
	}
	if e.panics(st) {
		// discharged if it cannot happen, else the panicking run is followed as well
		if e.dry == 0 && !e.noSolve {
			e.stats.Vcs++
			e.stats.Discharged++
		}
		n := e.c.Not(cond)
		if e.noSolve || e.s.Check(st.facts, n, e.proveTO) != "unsat" {
			s2 := st.clone()
			s2.assume(e, n)
			if !s2.dead {
				s2.note("%s: run-time panic: %s", e.pos(pos), what)
				e.goPanic(s2, e.c.Box("runtime.Error", e.c.Str(what)), pos, what)
			}
		}
	}
	st.assume(e, cond)
	return !st.dead
}

func (e *Engine) boundsOK(st *State, i, n *Term, pos token.Pos, what string) bool {
	c := e.c
	return e.panicUnless(st, c.And(c.Le(c.Int(0), i), c.Lt(i, n)), pos, what)
}

func (e *Engine) derefOK(st *State, fr *Frame, p *Term, pos token.Pos, x ssa.Value) bool {
	if p.op == "alloc" || p.op == "glob" || isIP(p) {
		return true
	}
	cond := e.c.Not(e.c.Eq(p, e.c.Int(0)))
	if st.factSet[cond] {
		return true
	}
	if st.flags["panics"] {
		return e.panicUnless(st, cond, pos, "nil pointer dereference")
	}
	st.assume(e, cond)
	return !st.dead
}

func (e *Engine) goPanic(st *State, v *Term, pos token.Pos, what string) {
	fr := st.top()
	fr.panick = true
	fr.recov = false
	fr.panicV = v
	st.note("%s: panics (%s)", e.pos(pos), what)
	e.unwind(st)
}

func (e *Engine) unwind(st *State) {
	for {
		fr := st.top()
		for _, lc := range fr.loops {
			if lc.dry {
				return
			}
		}
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			e.invoke(st, d, token.NoPos, true, func(s2 *State, v Val) {
				f2 := s2.top()
				if f2.recov {
					f2.panick = false
					e.finishRecovered(s2)
				} else {
					e.unwind(s2)
				}
			})
			return
		}
		v := fr.panicV
		st.frames = st.frames[:len(st.frames)-1]
		if len(st.frames) == 0 {
			st.panick = true
			st.panicV = v
			e.terminal(st)
			return
		}
		// a deferred call that panics anew replaces the panic of the frame below
		st.top().panick = true
		st.top().recov = false
		st.top().panicV = v
	}
}

func (e *Engine) finishRecovered(st *State) {
	fr := st.top()
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		e.invoke(st, d, token.NoPos, true, func(s2 *State, v Val) { e.finishRecovered(s2) })
		return
	}
	fr.recov = false
	fr.loops = nil
	if fr.fn.Recover != nil {
		fr.prev = fr.block
		fr.block = fr.fn.Recover
		fr.pc = 0
		e.push(st)
		return
	}
	e.doReturn(st, e.zero(fr.fn.Signature.Results()))
}

// ---------- calls ----------

func (e *Engine) prepCall(st *State, fr *Frame, cc *ssa.CallCommon) (deferred, bool) {
	d := deferred{call: cc}
	if cc.IsInvoke() {
		d.inv = cc.Method
		d.args = append(d.args, e.val(st, fr, cc.Value))
	} else if bi, ok := cc.Value.(*ssa.Builtin); ok {
		d.fv = &FnVal{bi: bi}
	} else if fn, ok := cc.Value.(*ssa.Function); ok {
		d.fv = &FnVal{fn: fn}
	} else {
		t := e.val(st, fr, cc.Value)[0]
		d.fnT = t
		d.fv = e.fnTab[t]
	}
	for _, a := range cc.Args {
		d.args = append(d.args, e.val(st, fr, a))
	}
	return d, !st.dead
}

func (e *Engine) call(st *State, cc *ssa.CallCommon, pos token.Pos, isDefer bool, ret func(st *State, v Val)) bool {
	d, ok := e.prepCall(st, st.top(), cc)
	if !ok {
		return false
	}
	return e.invoke(st, d, pos, isDefer, ret)
}

func shortName(s string) string { return strings.ReplaceAll(s, modPath+".", "") }

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return shortName(fn.String())
}

// invoke performs a prepared call. It always consumes st (returns false).
func (e *Engine) invoke(st *State, d deferred, pos token.Pos, isDefer bool, ret func(st *State, v Val)) bool {
	cc := d.call
	sig := cc.Signature()
	if d.inv != nil {
		e.invokeIface(st, d, pos, isDefer, ret)
		return false
	}
	if d.fv == nil {
		// unknown function value
		if st.flags["panics"] && d.fnT != nil {
			if !e.panicUnless(st, e.c.Not(e.c.Eq(d.fnT, e.c.Int(0))), pos, "call of nil function") {
				return false
			}
		}
		name := "func:" + typeKey(sig)
		if m := e.models[name]; m != nil {
			args := append([]Val{{d.fnT}}, d.args...)
			if len(m.Params) == len(d.args) {
				args = d.args
			}
			e.enter(st, m, args, nil, isDefer, ret)
			return false
		}
		e.external(st, name, sig, d.args, nil, ret)
		return false
	}
	if d.fv.bi != nil {
		e.builtin(st, d.fv.bi.Name(), cc, d.args, pos, ret)
		return false
	}
	if d.fv.intr != nil {
		d.fv.intr(e, st, d.args, ret)
		return false
	}
	if d.fv.bound != nil {
		dd := deferred{call: cc, inv: d.fv.bound, args: append([]Val{d.fv.bind[0]}, d.args...)}
		e.invokeIfaceT(st, dd, d.fv.recvT, pos, isDefer, ret)
		return false
	}
	e.callFn(st, d.fv.fn, d.args, d.fv.bind, pos, isDefer, ret)
	return false
}

func (e *Engine) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, isDefer bool, ret func(st *State, v Val)) {
	name := fnName(fn)
	if strings.HasPrefix(name, "gv") || strings.HasPrefix(name, "(*gv") {
		if h := intrinsics[name]; h != nil {
			h(e, st, fn, args, pos, ret)
			return
		}
	}
	if m := e.models[name]; m != nil && !e.inside(st, m) {
		e.modelUsed[name] = true
		e.enter(st, m, args, nil, isDefer, ret)
		return
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && fn.Pkg != e.pkg {
		ret(st, nil) // of another package
		return
	}
	if b := builtinModels[name]; b != nil {
		e.modelUsed["builtin "+name] = true
		b(e, st, fn, args, pos, ret)
		return
	}
	if e.inModule(fn) && len(fn.Blocks) > 0 {
		e.enter(st, fn, args, bind, isDefer, ret)
		return
	}
	if e.pure[name] {
		e.modelUsed["pure "+name] = true
		ret(st, e.pureCall(st, name, fn.Signature, args))
		return
	}
	e.external(st, name, fn.Signature, args, fn, ret)
}

func (e *Engine) inside(st *State, m *ssa.Function) bool {
	for _, f := range st.frames {
		if f.fn == m {
			return true
		}
	}
	return false
}

func (e *Engine) inModule(fn *ssa.Function) bool {
	if fn.Pkg == e.pkg {
		return true
	}
	if fn.Parent() != nil {
		return e.inModule(fn.Parent())
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return e.inModule(fn.Origin())
	}
	// wrappers and bounds have no package
	if fn.Pkg == nil && fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return true
	}
	return false
}

func (e *Engine) enter(st *State, fn *ssa.Function, args []Val, bind []Val, isDefer bool, ret func(st *State, v Val)) {
	if len(st.frames) > 60 {
		e.unsupported(st, "call depth")
		return
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n > 3 {
		e.unsupported(st, "recursion of %s", fn)
		return
	}
	if len(fn.Blocks) == 0 {
		e.external(st, fnName(fn), fn.Signature, args, fn, ret)
		return
	}
	e.entered[fnName(fn)] = true
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, block: fn.Blocks[0], onRet: ret, free: bind, isDefer: isDefer, args: args}
	if len(args) != len(fn.Params) {
		e.unsupported(st, "arity of %s: %d/%d", fn, len(args), len(fn.Params))
		return
	}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	st.frames = append(st.frames, f)
	// an entry block that is a loop header
	if l := e.loopsOf(fn)[fn.Blocks[0]]; l != nil {
		e.processLoop(st, l)
		return
	}
	e.push(st)
}

func (e *Engine) invokeIface(st *State, d deferred, pos token.Pos, isDefer bool, ret func(st *State, v Val)) {
	e.invokeIfaceT(st, d, d.call.Value.Type(), pos, isDefer, ret)
}

func (e *Engine) invokeIfaceT(st *State, d deferred, it types.Type, pos token.Pos, isDefer bool, ret func(st *State, v Val)) {
	recv := d.args[0][0]
	m := d.inv
	if st.flags["panics"] {
		if !e.panicUnless(st, e.c.Not(e.c.IsNil(recv)), pos, "method call on nil interface") {
			return
		}
	} else {
		st.assume(e, e.c.Not(e.c.IsNil(recv)))
		if st.dead {
			return
		}
	}
	n1 := "(" + typeKey(it) + ")." + m.Name()
	n2 := shortName(m.FullName())
	var md *ssa.Function
	// a boxed concrete in-module receiver is dispatched statically unless modelled
	if recv.op == "box" {
		if t := e.boxT[recv.name]; t != nil {
			if f := e.prog.LookupMethod(t, m.Pkg(), m.Name()); f != nil {
				fn := fnName(f)
				if x := e.models[fn]; x != nil && !e.inside(st, x) {
					e.modelUsed[fn] = true
					args := append([]Val{Val(recv.args)}, d.args[1:]...)
					e.enter(st, x, args, nil, isDefer, ret)
					return
				}
				if e.inModule(f) && len(f.Blocks) > 0 {
					args := append([]Val{Val(recv.args)}, d.args[1:]...)
					e.callFn(st, f, args, nil, pos, isDefer, ret)
					return
				}
			}
		}
	}
	for _, n := range []string{n1, n2} {
		if x := e.models[n]; x != nil && !e.inside(st, x) {
			e.modelUsed[n] = true
			md = x
			break
		}
	}
	if md != nil {
		e.enter(st, md, d.args, nil, isDefer, ret)
		return
	}
	for _, n := range []string{n1, n2} {
		if b := builtinModels[n]; b != nil {
			e.modelUsed["builtin "+n] = true
			b(e, st, nil, d.args, pos, ret)
			return
		}
		if e.pure[n] {
			e.modelUsed["pure "+n] = true
			ret(st, e.pureCall(st, n, m.Type().(*types.Signature), d.args))
			return
		}
	}
	// a unique in-module implementation of an unexported interface could be inlined; not done
	e.external(st, n2, m.Type().(*types.Signature), d.args, nil, ret)
}

// external: unknown effects limited to the objects handed over; results arbitrary.
func (e *Engine) external(st *State, name string, sig *types.Signature, args []Val, fn *ssa.Function, ret func(st *State, v Val)) {
	e.externals[name] = true
	for _, a := range args {
		for _, x := range a {
			if r := rootAllocAny(x); r != nil {
				e.markEscaped(st, r)
				e.havocObject(st, r)
			}
		}
	}
	// slices are handed over with their elements, whoever allocated them
	if off := len(args) - sig.Params().Len(); off >= 0 && !strings.HasSuffix(name, ".Write") {
		for i := 0; i < sig.Params().Len(); i++ {
			sl, ok := sig.Params().At(i).Type().Underlying().(*types.Slice)
			a := args[off+i]
			if !ok || len(a) == 0 || a[0].isInt(0) || rootAllocAny(a[0]) != nil {
				continue
			}
			names := []string{"bytes"}
			if !isByte(sl.Elem()) {
				names = nil
				for _, lp := range e.elemComps(sl.Elem()) {
					if len(lp.chain) == 1 && lp.chain[0] == "#elem" {
						names = append(names, lp.name)
					}
				}
			}
			for _, n := range names {
				e.havocComp(st, n, func(key []*Term) *Term { return e.c.Eq(key[0], a[0]) })
			}
		}
	}
	st.note("external %s", name)
	v := e.freshVal(st, "ext."+name, sig.Results())
	ret(st, v)
}

// havocObject forgets everything known about an object handed to unknown code.
func (e *Engine) havocObject(st *State, r *Term) {
	if e.fnTab[r] != nil {
		return
	}
	for name, l := range st.heap {
		touched := false
		for x := l; x != nil; x = x.prev {
			for _, k := range x.key {
				if rootAllocAny(k) == r {
					touched = true
				}
			}
		}
		if touched && !strings.HasPrefix(name, "gv:") {
			e.havocComp(st, name, func(key []*Term) *Term {
				for _, k := range key {
					if rootAllocAny(k) == r {
						return e.c.True
					}
				}
				return e.c.False
			})
		}
	}
}

func (e *Engine) pureVal(st *State, name string, t types.Type, args Val) Val {
	var v Val
	for i, s := range e.layout(t) {
		v = append(v, e.c.App(leafName("p."+name, i), s, args...))
	}
	e.typeFacts(st, t, v)
	return v
}

func (e *Engine) pureCall(st *State, name string, sig *types.Signature, args []Val) Val {
	var flat Val
	for i, a := range args {
		if sig.Variadic() && i == len(args)-1 {
			flat = append(flat, e.sliceElems(st, a, sig.Params().At(sig.Params().Len()-1).Type())...)
			continue
		}
		var pt types.Type
		k := i
		if sig.Recv() != nil && len(args) == sig.Params().Len()+1 {
			k = i - 1
		}
		if k >= 0 && k < sig.Params().Len() {
			pt = sig.Params().At(k).Type()
		}
		if pt != nil && isByteSlice(pt) {
			flat = append(flat, e.bytesOf(st, a))
			continue
		}
		flat = append(flat, a...)
	}
	var v Val
	for i, s := range e.layout(sig.Results()) {
		v = append(v, e.c.App(leafName("p."+name, i), s, flat...))
	}
	e.typeFacts(st, sig.Results(), v)
	return v
}

// sliceElems lists the leaves of a slice of known length (or its header otherwise).
func (e *Engine) sliceElems(st *State, v Val, t types.Type) Val {
	if v[2].op != "int" {
		return v
	}
	et := t.Underlying().(*types.Slice).Elem()
	var r Val
	for i := int64(0); i < v[2].ival.Int64(); i++ {
		x := e.load(st, eaTerm(e, v[0], e.c.Add(v[1], e.c.Int(i))), et)
		for _, y := range x {
			if y.op == "box" && (y.name == "[]byte" || y.name == "encoding/json.RawMessage") {
				r = append(r, e.bytesOf(st, Val(y.args)))
			} else if y.op == "box" && len(y.args) == 1 {
				r = append(r, y.args[0])
			} else {
				r = append(r, y)
			}
		}
	}
	return r
}

func intRange(b *types.Basic) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	bits := uint(64)
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	if uns {
		hi := new(big.Int).Lsh(one, bits)
		return big.NewInt(0), hi.Sub(hi, one)
	}
	hi := new(big.Int).Lsh(one, bits-1)
	lo := new(big.Int).Neg(hi)
	return lo, hi.Sub(hi, one)
}
