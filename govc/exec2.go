package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) execIndexAddr(st *State, fr *Frame, i *ssa.IndexAddr) bool {
	c := e.c
	x := e.val(st, fr, i.X)
	k := e.val(st, fr, i.Index)[0]
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		if !e.boundsOK(st, k, x[2], i.Pos(), "index out of range") {
			return false
		}
		fr.regs[i] = Val{eaTerm(e, x[0], c.Add(x[1], k))}
		if len(st.quants) > 0 {
			e.instantiate(st, u.Elem(), k)
			if !x[1].isInt(0) {
				e.instantiate(st, u.Elem(), c.Add(x[1], k))
			}
			return !st.dead
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if !e.boundsOK(st, k, c.Int(at.Len()), i.Pos(), "index out of range") {
			return false
		}
		fr.regs[i] = Val{eaTerm(e, x[0], k)}
	default:
		e.unsupported(st, "IndexAddr of %s", i.X.Type())
		return false
	}
	return true
}

func (e *Engine) execSlice(st *State, fr *Frame, i *ssa.Slice) bool {
	c := e.c
	x := e.val(st, fr, i.X)
	var lo, hi, max *Term
	lo = c.Int(0)
	if i.Low != nil {
		lo = e.val(st, fr, i.Low)[0]
	}
	if i.High != nil {
		hi = e.val(st, fr, i.High)[0]
	}
	if i.Max != nil {
		max = e.val(st, fr, i.Max)[0]
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := c.Len(x[0])
		if hi == nil {
			hi = n
		}
		if !e.panicUnless(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), i.Pos(), "slice bounds out of range") {
			return false
		}
		fr.regs[i] = Val{c.Substr(x[0], lo, c.Sub(hi, lo))}
	case *types.Slice:
		if hi == nil {
			hi = x[2]
		}
		cp := x[3]
		if max != nil {
			cp = max
		}
		if !e.panicUnless(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, cp), c.Le(cp, x[3])), i.Pos(), "slice bounds out of range") {
			return false
		}
		fr.regs[i] = Val{x[0], c.Add(x[1], lo), c.Sub(hi, lo), c.Sub(cp, lo)}
	case *types.Pointer:
		n := c.Int(u.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if max != nil {
			cp = max
		}
		if !e.panicUnless(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, cp)), i.Pos(), "slice bounds out of range") {
			return false
		}
		fr.regs[i] = Val{x[0], lo, c.Sub(hi, lo), c.Sub(cp, lo)}
	default:
		e.unsupported(st, "Slice of %s", i.X.Type())
		return false
	}
	return true
}

func (e *Engine) execUnOp(st *State, fr *Frame, i *ssa.UnOp) bool {
	c := e.c
	x := e.val(st, fr, i.X)
	switch i.Op {
	case token.MUL:
		if !e.derefOK(st, fr, x[0], i.Pos(), i.X) {
			return false
		}
		fr.regs[i] = e.load(st, x[0], i.Type())
		if ia, ok := i.X.(*ssa.IndexAddr); ok && !e.inContract(st) {
			if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok {
				if h := e.hooks["onelemget:"+typeKey(sl.Elem())]; h != nil && !e.inside(st, h) && len(h.Params) == 3 {
					e.enter(st, h, []Val{e.val(st, fr, ia.X), e.val(st, fr, ia.Index), fr.regs[i]}, nil, false, func(s2 *State, _ Val) { e.push(s2) })
					return false
				}
			}
		}
	case token.NOT:
		fr.regs[i] = Val{c.Not(x[0])}
	case token.SUB:
		if x[0].sort == "F64" {
			fr.regs[i] = Val{c.App("f64.neg", "F64", x[0])}
		} else {
			fr.regs[i] = Val{c.Sub(c.Int(0), x[0])}
		}
	case token.XOR:
		fr.regs[i] = Val{c.App("bitnot", "Int", x[0])}
	case token.ARROW:
		return e.chanRecv(st, x[0], i.X.Type(), i.CommaOk, i.Pos(), func(s2 *State, v Val) {
			s2.top().regs[i] = v
			e.push(s2)
		})
	default:
		e.unsupported(st, "unop %s", i.Op)
		return false
	}
	return !st.dead
}

func (e *Engine) execBinOp(st *State, fr *Frame, i *ssa.BinOp) bool {
	c := e.c
	x := e.val(st, fr, i.X)
	y := e.val(st, fr, i.Y)
	t := i.X.Type()
	r := func(v *Term) bool { fr.regs[i] = Val{v}; return true }
	switch i.Op {
	case token.EQL, token.NEQ:
		q := e.valEq(st, i.X.Type(), x, i.Y.Type(), y)
		if i.Op == token.NEQ {
			q = c.Not(q)
		}
		return r(q)
	}
	if len(x) != 1 || len(y) != 1 {
		e.unsupported(st, "binop %s", i)
		return false
	}
	a, b := x[0], y[0]
	switch a.sort {
	case "String":
		switch i.Op {
		case token.ADD:
			return r(c.Concat(a, b))
		case token.LSS:
			return r(c.S("s.lt", "Bool", a, b))
		case token.GTR:
			return r(c.S("s.lt", "Bool", b, a))
		case token.LEQ:
			return r(c.Not(c.S("s.lt", "Bool", b, a)))
		case token.GEQ:
			return r(c.Not(c.S("s.lt", "Bool", a, b)))
		}
	case "F64":
		switch i.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return r(c.App("f64."+i.Op.String(), "Bool", a, b))
		}
		return r(c.App("f64."+i.Op.String(), "F64", a, b))
	}
	wrap := func(v *Term) bool {
		if bt, ok := t.Underlying().(*types.Basic); ok {
			switch bt.Kind() {
			case types.Int8, types.Uint8, types.Int16, types.Uint16, types.Int32, types.Uint32:
				v = e.narrow(v, bt)
			}
		}
		return r(v)
	}
	switch i.Op {
	case token.ADD:
		return wrap(c.Add(a, b))
	case token.SUB:
		return wrap(c.Sub(a, b))
	case token.MUL:
		return wrap(c.Mul(a, b))
	case token.QUO:
		if !e.panicUnless(st, c.Not(c.Eq(b, c.Int(0))), i.Pos(), "integer divide by zero") {
			return false
		}
		return r(c.Div(a, b))
	case token.REM:
		if !e.panicUnless(st, c.Not(c.Eq(b, c.Int(0))), i.Pos(), "integer divide by zero") {
			return false
		}
		return r(c.Mod(a, b))
	case token.LSS:
		return r(c.Lt(a, b))
	case token.LEQ:
		return r(c.Le(a, b))
	case token.GTR:
		return r(c.Lt(b, a))
	case token.GEQ:
		return r(c.Le(b, a))
	case token.SHL:
		if b.op == "int" && b.ival.IsInt64() && b.ival.Int64() < 64 {
			return wrap(c.Mul(a, c.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(b.ival.Int64())))))
		}
	case token.SHR:
		if b.op == "int" && b.ival.IsInt64() && b.ival.Int64() < 63 {
			return r(c.Div(a, c.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(b.ival.Int64())))))
		}
	}
	return r(c.App("bit."+i.Op.String(), "Int", a, b))
}

func (e *Engine) narrow(v *Term, bt *types.Basic) *Term {
	lo, hi := intRange(bt)
	if v.op == "int" && v.ival.Cmp(lo) >= 0 && v.ival.Cmp(hi) <= 0 {
		return v
	}
	c := e.c
	size := new(big.Int).Sub(hi, lo)
	size.Add(size, big.NewInt(1))
	m := c.mk("mod", "Int", "", nil, c.Sub(v, c.BigInt(lo)), c.BigInt(size))
	return c.Ite(c.And(c.Le(c.BigInt(lo), v), c.Le(v, c.BigInt(hi))), v, c.Add(m, c.BigInt(lo)))
}

// wrap64 converts between signed and unsigned 64-bit integers.
func (e *Engine) wrap64(v *Term, bt *types.Basic) *Term {
	c := e.c
	if v.op == "int" {
		return e.narrow(v, bt)
	}
	m := c.BigInt(new(big.Int).Lsh(big.NewInt(1), 64))
	if bt.Info()&types.IsUnsigned != 0 {
		return c.Ite(c.Le(c.Int(0), v), v, c.Add(v, m))
	}
	max := c.BigInt(new(big.Int).SetUint64(1<<63 - 1))
	return c.Ite(c.Le(v, max), v, c.Sub(v, m))
}

// valEq compares two values; a nil slice/func constant compares by reference.
func (e *Engine) valEq(st *State, tx types.Type, x Val, ty types.Type, y Val) *Term {
	c := e.c
	_, ix := tx.Underlying().(*types.Interface)
	_, iy := ty.Underlying().(*types.Interface)
	if ix && !iy {
		y = Val{c.Box(typeKey(ty), y...)}
	} else if iy && !ix {
		x = Val{c.Box(typeKey(tx), x...)}
	}
	if _, ok := tx.Underlying().(*types.Slice); ok {
		return c.Eq(x[0], y[0]) // only comparison with nil compiles
	}
	r := c.True
	for k := range x {
		r = c.And(r, c.Eq(x[k], y[k]))
	}
	return r
}

func (e *Engine) convert(st *State, from, to types.Type, x Val) Val {
	c := e.c
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		switch tb.Kind() {
		case types.Int8, types.Uint8, types.Int16, types.Uint16, types.Int32, types.Uint32:
			return Val{e.narrow(x[0], tb)}
		case types.Int, types.Int64:
			if fb.Kind() == types.Uint || fb.Kind() == types.Uint64 || fb.Kind() == types.Uintptr {
				return Val{e.wrap64(x[0], tb)}
			}
		case types.Uint, types.Uint64, types.Uintptr:
			if fb.Info()&types.IsUnsigned == 0 {
				return Val{e.wrap64(x[0], tb)}
			}
		}
		return x
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return x
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		return Val{c.S("s.fromcode", "String", x[0])}
	case fb != nil && tb != nil && tb.Info()&types.IsFloat != 0:
		return Val{c.App("f64.of."+x[0].sort, "F64", x...)}
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		return Val{c.App("f64.toint", "Int", x...)}
	case isByteSlice(from) && tb != nil && tb.Info()&types.IsString != 0:
		return Val{e.bytesOf(st, x)}
	case fb != nil && fb.Info()&types.IsString != 0 && isByteSlice(to):
		return e.newBytes(st, "bytes", x[0])
	case len(e.layout(from)) == len(e.layout(to)):
		return x
	}
	return e.pureVal(st, "conv."+typeKey(from)+"."+typeKey(to), to, x)
}

// regBox remembers the Go type of a boxed representation.
func (e *Engine) regBox(t types.Type) {
	k := typeKey(t)
	if e.boxT[k] == nil {
		e.boxT[k] = t
		e.c.TypeID(k)
		for _, in := range e.implQ {
			e.implAxiom(k, t, in)
		}
	}
}

func (e *Engine) implAxiom(k string, t types.Type, in types.Type) {
	e.implTab[k+"|"+typeKey(in)] = types.Implements(t, in.Underlying().(*types.Interface))
}

// implements yields the condition that the dynamic type of x implements in.
func (e *Engine) implements(x *Term, in types.Type) *Term {
	c := e.c
	if x.op == "nilany" {
		return c.False
	}
	iu := in.Underlying().(*types.Interface)
	if x.op == "box" {
		if t := e.boxT[x.name]; t != nil {
			return c.Bool(types.Implements(t, iu))
		}
	}
	if iu.NumMethods() == 0 {
		return c.Not(c.IsNil(x))
	}
	ty := c.Typ(x)
	r := c.App("impl."+typeKey(in), "Bool", ty)
	// resolve against the known types
	var excl []*Term
	for _, k := range sortedKeys(e.boxT) {
		id := c.Int(int64(c.TypeID(k)))
		if types.Implements(e.boxT[k], iu) {
			excl = append(excl, c.Or(c.Not(c.Eq(ty, id)), r))
		} else {
			excl = append(excl, c.Or(c.Not(c.Eq(ty, id)), c.Not(r)))
		}
	}
	e.pendingFacts = append(e.pendingFacts, excl...)
	return c.And(c.Not(c.IsNil(x)), r)
}

func (e *Engine) execTypeAssert(st *State, fr *Frame, i *ssa.TypeAssert) bool {
	c := e.c
	x := e.val(st, fr, i.X)[0]
	var cond *Term
	_, isI := i.AssertedType.Underlying().(*types.Interface)
	if isI {
		if sub, ok := i.X.Type().Underlying().(*types.Interface); ok && types.Implements(sub, i.AssertedType.Underlying().(*types.Interface)) {
			cond = c.Not(c.IsNil(x))
		} else {
			cond = e.implements(x, i.AssertedType)
			for _, f := range e.pendingFacts {
				st.assume(e, f)
			}
			e.pendingFacts = nil
		}
	} else {
		k := typeKey(i.AssertedType)
		e.regBox(i.AssertedType)
		cond = c.Eq(c.Typ(x), c.Int(int64(c.TypeID(k))))
	}
	get := func(s2 *State) Val {
		if isI {
			return Val{x}
		}
		k := typeKey(i.AssertedType)
		var v Val
		for q, s := range e.layout(i.AssertedType) {
			v = append(v, c.Unbox(k, q, s, x))
		}
		e.loadFacts(s2, i.AssertedType, v)
		return v
	}
	if !i.CommaOk {
		if !e.panicUnless(st, cond, i.Pos(), "interface conversion") {
			return false
		}
		fr.regs[i] = get(st)
		return !st.dead
	}
	return e.fork(st, cond, "type assert", func(s2 *State, yes bool) {
		if yes {
			s2.top().regs[i] = append(append(Val{}, get(s2)...), c.True)
			s2.note("%s: is %s", e.pos(i.Pos()), typeKey(i.AssertedType))
		} else {
			s2.top().regs[i] = append(append(Val{}, e.zero(i.AssertedType)...), c.False)
		}
	})
}

// ---------- iteration ----------

// nextTuple leaves out the components the program does not use: go/ssa gives them no type.
func nextTuple(i *ssa.Next, ok *Term, k, v Val) Val {
	tt := i.Type().(*types.Tuple)
	r := Val{ok}
	if tt.At(1).Type() != types.Typ[types.Invalid] {
		r = append(r, k...)
	}
	if tt.At(2).Type() != types.Typ[types.Invalid] {
		r = append(r, v...)
	}
	return r
}

func (e *Engine) execNext(st *State, fr *Frame, i *ssa.Next) bool {
	c := e.c
	itT := e.val(st, fr, i.Iter)[0]
	it := st.iters[itT]
	if it == nil {
		e.unsupported(st, "unknown iterator")
		return false
	}
	if it.kind == "string" {
		v := Val{c.Fresh("rune.ok", "Bool"), c.Fresh("rune.i", "Int"), c.Fresh("rune", "Int")}
		fr.regs[i] = v
		return true
	}
	mt := it.mt.Underlying().(*types.Map)
	vis := "iter:" + e.mapName(it.mt)
	// done
	s2 := st.clone()
	okk := true
	for _, rg := range e.rigids {
		if !types.Identical(rg.t, mt.Key()) {
			continue
		}
		// an entry present at the start and still present has been visited
		k := append([]*Term{it.m}, rg.v...)
		hs := &State{heap: it.heap}
		at0 := e.readComp(hs, e.mapName(it.mt)+".dom", k, "Bool")
		now := e.readComp(s2, e.mapName(it.mt)+".dom", k, "Bool")
		v := e.readComp(s2, vis, append([]*Term{itT}, rg.v...), "Bool")
		s2.assume(e, c.Or(c.Not(at0), c.Not(now), v))
	}
	if it.m.isInt(0) {
		okk = false
	}
	if !s2.dead {
		f2 := s2.top()
		f2.regs[i] = nextTuple(i, c.False, e.zero(mt.Key()), e.zero(mt.Elem()))
		e.mapHooked(s2, "onmapend", it.mt, []Val{{it.m}}, func(s3 *State) { e.push(s3) })
	}
	if !okk {
		return false
	}
	// another entry
	key := e.freshVal(st, "key", mt.Key())
	has := e.mapHas(st, it.mt, it.m, key)
	st.assume(e, has)
	st.assume(e, c.Not(e.readComp(st, vis, append([]*Term{itT}, key...), "Bool")))
	st.assume(e, c.Le(c.Int(1), e.mapLen(st, it.mt, it.m)))
	if st.dead {
		return false
	}
	e.writeComp(st, vis, append([]*Term{itT}, key...), c.True)
	v := e.mapGet(st, it.mt, it.m, key)
	fr.regs[i] = nextTuple(i, c.True, key, v)
	if len(st.facts) > 0 && e.s.Check(st.facts, nil, e.feasTO) == "unsat" {
		return false
	}
	e.mapHooked(st, "onmapread", it.mt, []Val{{it.m}, key, v}, func(s2 *State) {
		e.mapHooked(s2, "onmapnext", it.mt, []Val{{it.m}, key, v}, func(s3 *State) { e.push(s3) })
	})
	return false
}

// mapHook finds the contract function for the entries of a map type: onmapread assumes the invariant of an entry
// that was read, onmapwrite and onmapdelete check it.
func (e *Engine) mapHook(st *State, kind string, mt types.Type, args []Val) *ssa.Function {
	h := e.hooks[kind+":"+typeKey(mt.Underlying())]
	if h == nil || e.inside(st, h) || len(h.Params) != len(args) || kind != "onmapread" && e.inContract(st) {
		return nil
	}
	return h
}

func (e *Engine) mapHooked(st *State, kind string, mt types.Type, args []Val, then func(st *State)) {
	h := e.mapHook(st, kind, mt, args)
	if h == nil {
		then(st)
		return
	}
	e.enter(st, h, args, nil, false, func(s2 *State, v Val) { then(s2) })
}

// ---------- channels ----------

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

func (e *Engine) chanHook(st *State, kind string, ct types.Type, args []Val, then func(st *State)) {
	h := e.hooks[kind+":"+e.cellKey(chanElem(ct))]
	if h == nil {
		h = e.hooks[kind+":*"]
	}
	if h == nil || e.inside(st, h) || len(h.Params) != len(args) {
		then(st)
		return
	}
	e.enter(st, h, args, nil, false, func(s2 *State, v Val) { then(s2) })
}

func (e *Engine) chanSend(st *State, ch *Term, ct types.Type, v Val, pos token.Pos, then func(st *State)) bool {
	c := e.c
	if st.assume(e, c.Not(c.Eq(ch, c.Int(0)))); st.dead {
		return false // a nil channel blocks for ever
	}
	e.yield(st, func(st *State) {
		closed := e.readComp(st, "chanclosed", []*Term{ch}, "Bool")
		if !e.panicUnless(st, c.Not(closed), pos, "send on closed channel") {
			return
		}
		for _, x := range v {
			if r := rootAllocAny(x); r != nil {
				e.markEscaped(st, r)
			}
		}
		if q := st.queues[ch]; q != nil {
			q.vals = append(q.vals, v)
		}
		e.chanHook(st, "onsend", ct, []Val{{ch}, v}, then)
	})
	return false
}

func (e *Engine) chanRecv(st *State, ch *Term, ct types.Type, commaOk bool, pos token.Pos, then func(st *State, v Val)) bool {
	c := e.c
	et := chanElem(ct)
	fin := func(s2 *State, v Val, ok *Term) {
		r := append(Val{}, v...)
		if commaOk {
			r = append(r, ok)
		}
		e.chanHook(s2, "onrecv", ct, []Val{{ch}, v, {ok}}, func(s3 *State) { then(s3, r) })
	}
	if st.assume(e, c.Not(c.Eq(ch, c.Int(0)))); st.dead {
		return false // a nil channel blocks for ever
	}
	if ctx := ctxOfDone(ch); ctx != nil {
		e.setCancelled(st, ctx)
		fin(st, e.zero(et), c.False)
		return false
	}
	if q := st.queues[ch]; q != nil && q.exact && (!st.escaped[ch] || q.exact) {
		if len(q.vals) > 0 {
			v := q.vals[0]
			q.vals = q.vals[1:]
			fin(st, v, c.True)
			return false
		}
		closed := e.readComp(st, "chanclosed", []*Term{ch}, "Bool")
		if closed == c.True {
			fin(st, e.zero(et), c.False)
			return false
		}
		if closed == c.False && !e.localOpen(st, ch) {
			st.flags["blocked"] = true
			return false // blocks for ever on this path
		}
	}
	// unknown channel
	e.yield(st, func(st *State) {
		s2 := st.clone()
		v := e.freshVal(st, "recv", et)
		if !e.noSolve && !timerChan(ch) {
			closed := e.readComp(s2, "chanclosed", []*Term{ch}, "Bool")
			if st.queues[ch] == nil || e.localOpen(st, ch) {
				// others may close it
				e.writeComp(s2, "chanclosed", []*Term{ch}, c.True)
			} else {
				s2.assume(e, closed)
			}
			if !s2.dead {
				s2.note("%s: receives from closed channel", e.pos(pos))
				fin(s2, e.zero(et), c.False)
			}
		}
		fin(st, v, c.True)
	})
	return false
}

// timerChan: the channel of a timer or ticker, which is never closed.
func timerChan(ch *Term) bool {
	return ch.op == "app" && (ch.name == "inj.timeafter" || ch.name == "inj.tickchan")
}

// localOpen: somebody else may still send on this local channel.
func (e *Engine) localOpen(st *State, ch *Term) bool {
	return st.flags["open:"+fmt.Sprint(ch.id)]
}

func ctxOfDone(ch *Term) *Term {
	if ch.op == "app" && ch.name == "inj.ctxdone" {
		return ch.args[0]
	}
	return nil
}

func (e *Engine) setCancelled(st *State, ctx *Term) {
	e.compOf("gv:ctx.cancelled", "Bool", []*Term{ctx})
	e.writeComp(st, "gv:ctx.cancelled", []*Term{ctx}, e.c.True)
}

func (e *Engine) execSelect(st *State, fr *Frame, i *ssa.Select) bool {
	c := e.c
	type cs struct {
		k  int
		s  *ssa.SelectState
		ch *Term
	}
	var cases []cs
	ready := false
	for k, s := range i.States {
		ch := e.val(st, fr, s.Chan)[0]
		if ch.isInt(0) {
			continue
		}
		if s.Dir == types.RecvOnly {
			if q := st.queues[ch]; q != nil && q.exact && ctxOfDone(ch) == nil {
				if len(q.vals) == 0 {
					closed := e.readComp(st, "chanclosed", []*Term{ch}, "Bool")
					if closed == c.False && !e.localOpen(st, ch) {
						continue // never ready on this path
					}
				} else {
					ready = true
				}
			}
		}
		cases = append(cases, cs{k, s, ch})
	}
	tt := i.Type().(*types.Tuple)
	mk := func(idx int, ok *Term, k int, v Val) Val {
		r := Val{c.Int(int64(idx)), ok}
		pos := 2
		for q, s := range i.States {
			if s.Dir == types.RecvOnly {
				if q == k && v != nil {
					r = append(r, v...)
				} else {
					r = append(r, e.zero(tt.At(pos).Type())...)
				}
				pos++
			}
		}
		return r
	}
	if !i.Blocking && !ready {
		s2 := st.clone()
		s2.top().regs[i] = mk(-1, c.False, -1, nil)
		s2.note("%s: select default", e.pos(i.Pos()))
		e.push(s2)
	}
	if len(cases) == 0 && i.Blocking {
		st.flags["blocked"] = true
	}
	for n := len(cases) - 1; n >= 0; n-- {
		cse := cases[n]
		s2 := st.clone()
		if len(cases) > 1 {
			s2.note("%s: select case %d", e.pos(i.Pos()), cse.k)
		}
		if cse.s.Dir == types.RecvOnly {
			k := cse.k
			e.chanRecv(s2, cse.ch, cse.s.Chan.Type(), true, i.Pos(), func(s3 *State, v Val) {
				s3.top().regs[i] = mk(k, v[len(v)-1], k, v[:len(v)-1])
				e.push(s3)
			})
		} else {
			k := cse.k
			v := e.val(s2, s2.top(), cse.s.Send)
			e.chanSend(s2, cse.ch, cse.s.Chan.Type(), v, i.Pos(), func(s3 *State) {
				s3.top().regs[i] = mk(k, c.False, -1, nil)
				e.push(s3)
			})
		}
	}
	return false
}

// ---------- goroutines ----------

func (e *Engine) execGo(st *State, fr *Frame, i *ssa.Go) bool {
	d, ok := e.prepCall(st, fr, i.Common())
	if !ok {
		return false
	}
	// everything handed over is shared from now on
	for _, a := range d.args {
		for _, x := range a {
			if r := rootAllocAny(x); r != nil {
				e.markEscaped(st, r)
			}
		}
	}
	if d.fv != nil {
		for _, b := range d.fv.bind {
			for _, x := range b {
				if r := rootAllocAny(x); r != nil {
					e.markEscaped(st, r)
				}
			}
		}
	}
	mode := st.spawn
	if mode == "" {
		mode = "inline"
	}
	child := func(base *State) *State {
		s := base.clone()
		s.frames = nil
		s.locks = map[*Term]*lockInfo{}
		s.flags["blocked"] = false
		s.note("%s: goroutine runs", e.pos(i.Pos()))
		return s
	}
	switch mode {
	case "late":
		st.pending = append(st.pending, &Frame{defers: []deferred{d}})
		e.push(st)
		return false
	case "any":
		// runs at once, or when its parent waits for it or has finished
		s2 := st.clone()
		s2.pending = append(s2.pending[:len(s2.pending):len(s2.pending)], &Frame{defers: []deferred{d}})
		s2.note("%s: goroutine is put off", e.pos(i.Pos()))
		e.push(s2)
	case "skip":
		e.openShared(st, d)
		e.push(st)
		return false
	case "separate":
		e.openShared(st, d)
		s := child(st)
		e.runChild(s, d, i.Pos())
		e.push(st)
		return false
	}
	frames := st.frames
	locks := st.locks
	outs := e.runChild(child(st), d, i.Pos())
	n := 0
	for _, o := range outs {
		if o.panick {
			continue
		}
		n++
		s := o
		s.ret = false
		s.frames = make([]*Frame, len(frames))
		for k, f := range frames {
			s.frames[k] = f.clone()
		}
		s.locks = map[*Term]*lockInfo{}
		for k, v := range locks {
			x := *v
			s.locks[k] = &x
		}
		e.push(s)
	}
	if n == 0 {
		// the goroutine does not finish before its parent continues
		st.pending = append(st.pending, &Frame{defers: []deferred{d}})
		e.push(st)
	}
	return false
}

// openShared marks the local channels a goroutine can reach directly: it may send to, receive from and close them at
// any time, while its parent runs.
func (e *Engine) openShared(st *State, d deferred) {
	open := func(t types.Type, v Val) {
		if p, ok := t.Underlying().(*types.Pointer); ok && len(v) == 1 && rootAllocAny(v[0]) != nil {
			if _, ok := p.Elem().Underlying().(*types.Chan); ok {
				t, v = p.Elem(), e.load(st, v[0], p.Elem())
			}
		}
		if _, ok := t.Underlying().(*types.Chan); ok && len(v) == 1 {
			st.flags["open:"+fmt.Sprint(v[0].id)] = true
			if q := st.queues[v[0]]; q != nil {
				st.queues[v[0]] = &queue{exact: false, cap: q.cap}
			}
		}
	}
	if d.fv != nil {
		for i, b := range d.fv.bind {
			if i < len(d.fv.fn.FreeVars) {
				open(d.fv.fn.FreeVars[i].Type(), b)
			}
		}
		for i, a := range d.args {
			if i < len(d.fv.fn.Params) {
				open(d.fv.fn.Params[i].Type(), a)
			}
		}
	}
}

// runChild explores a goroutine body on its own stack.
func (e *Engine) runChild(s *State, d deferred, pos token.Pos) []*State {
	outs := e.exploreF(func() { e.invokeRoot(s, d, pos) })
	var r []*State
	for _, o := range outs {
		if o.panick {
			e.uncaught(o, "goroutine")
			continue
		}
		if o.ret {
			e.checkLocksReleased(o, "goroutine")
			r = append(r, o)
		}
	}
	return r
}

func (e *Engine) invokeRoot(s *State, d deferred, pos token.Pos) {
	rootRet := func(s2 *State, v Val) {
		s2.ret = true
		s2.result = v
		e.terminal(s2)
	}
	// builtin / external goroutine bodies need a frame below them
	s.frames = []*Frame{{fn: e.rootFn, regs: map[ssa.Value]Val{}, block: e.rootFn.Blocks[0]}}
	e.invoke(s, d, pos, false, func(s2 *State, v Val) {
		if len(s2.frames) > 0 {
			s2.frames = s2.frames[:len(s2.frames)-1]
		}
		rootRet(s2, v)
	})
}

func (e *Engine) uncaught(st *State, where string) {
	if st.flags["panics"] {
		msg := ""
		if st.panicV != nil {
			msg = st.panicV.String()
		}
		e.violate(st, "no-uncaught-panic", e.c.False, "run-time panic leaves the "+where+": "+msg)
	}
}

// ---------- builtins ----------

func (e *Engine) builtin(st *State, name string, cc *ssa.CallCommon, args []Val, pos token.Pos, ret func(st *State, v Val)) {
	c := e.c
	switch name {
	case "len", "cap":
		t := cc.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Slice:
			if name == "len" {
				ret(st, Val{args[0][2]})
			} else {
				ret(st, Val{args[0][3]})
			}
		case *types.Basic:
			ret(st, Val{c.Len(args[0][0])})
		case *types.Map:
			e.onMapAccess(st, args[0][0], cc.Args[0].Type(), false, pos)
			ret(st, Val{e.mapLen(st, cc.Args[0].Type(), args[0][0])})
		case *types.Array:
			ret(st, Val{c.Int(u.Len())})
		case *types.Pointer:
			ret(st, Val{c.Int(u.Elem().Underlying().(*types.Array).Len())})
		case *types.Chan:
			v := c.Fresh("chanlen", "Int")
			if q := st.queues[args[0][0]]; q != nil && q.exact {
				v = c.Int(int64(len(q.vals)))
			}
			if name == "cap" {
				v = e.readComp(st, "chancap", []*Term{args[0][0]}, "Int")
			}
			st.assume(e, c.Le(c.Int(0), v))
			ret(st, Val{v})
		default:
			e.unsupported(st, "len of %s", t)
		}
	case "append":
		e.doAppend(st, cc, args, pos, ret)
	case "copy":
		if isByteSlice(cc.Args[0].Type()) {
			dst := args[0]
			var src *Term
			if isByteSlice(cc.Args[1].Type()) {
				src = e.bytesOf(st, args[1])
			} else {
				src = args[1][0]
			}
			sl := c.Len(src)
			whole := c.Le(sl, dst[2])
			do := func(st *State, n *Term) {
				cont := e.readComp(st, "bytes", []*Term{dst[0]}, "String")
				nc := c.Concat(c.Substr(cont, c.Int(0), dst[1]), c.Substr(src, c.Int(0), n),
					c.Substr(cont, c.Add(dst[1], n), c.Sub(c.Len(cont), c.Add(dst[1], n))))
				e.writeComp(st, "bytes", []*Term{dst[0]}, nc)
				ret(st, Val{n})
			}
			switch {
			case e.noSolve:
				do(st, c.Ite(whole, sl, dst[2]))
			case sl == dst[2]:
				do(st, sl)
			default:
				e.branch(st, whole, func(s2 *State, yes bool) {
					if yes {
						do(s2, sl)
					} else {
						do(s2, dst[2])
					}
				})
			}
			return
		}
		dst, src := args[0], args[1]
		n := c.Ite(c.Le(src[2], dst[2]), src[2], dst[2])
		e.copyElems(st, cc.Args[0].Type().Underlying().(*types.Slice).Elem(), dst[0], dst[1], n, src[0], src[1])
		ret(st, Val{n})
	case "delete":
		m := args[0][0]
		e.onMapAccess(st, m, cc.Args[0].Type(), true, pos)
		if m.isInt(0) {
			ret(st, nil)
			return
		}
		mt := cc.Args[0].Type()
		e.mapHooked(st, "onmapdelete", mt, []Val{{m}, args[1]}, func(s2 *State) {
			e.mapDelete(s2, mt, m, args[1])
			ret(s2, nil)
		})
	case "clear":
		e.unsupported(st, "clear")
	case "close":
		ch := args[0][0]
		closed := e.readComp(st, "chanclosed", []*Term{ch}, "Bool")
		if !e.panicUnless(st, c.And(c.Not(c.Eq(ch, c.Int(0))), c.Not(closed)), pos, "close of nil or closed channel") {
			return
		}
		e.writeComp(st, "chanclosed", []*Term{ch}, c.True)
		if q := st.queues[ch]; q != nil {
			q.closed = true
		}
		e.chanHook(st, "onclose", cc.Args[0].Type(), []Val{{ch}}, func(s2 *State) { ret(s2, nil) })
	case "panic":
		e.goPanic(st, args[0][0], pos, "explicit panic")
	case "recover":
		// called by a deferred function: the frame below is panicking
		n := len(st.frames)
		fr := st.top()
		if fr.isDefer && n >= 2 && st.frames[n-2].panick && !st.frames[n-2].recov {
			st.frames[n-2].recov = true
			ret(st, Val{st.frames[n-2].panicV})
			return
		}
		ret(st, Val{c.Nil()})
	case "print", "println":
		ret(st, nil)
	case "min", "max":
		r := args[0][0]
		for _, a := range args[1:] {
			if name == "min" {
				r = c.Ite(c.Le(r, a[0]), r, a[0])
			} else {
				r = c.Ite(c.Le(a[0], r), r, a[0])
			}
		}
		ret(st, Val{r})
	case "ssa:wrapnilchk":
		ret(st, args[0])
	default:
		e.unsupported(st, "builtin %s", name)
	}
}

// leafPaths lists, for an element type, the component name builders of its leaves.
type leafPath struct {
	name  string
	chain []string // fa constructors from the element pointer outwards
	sort  string
}

func (e *Engine) elemComps(t types.Type) []leafPath {
	if s := expandStruct(t); s != nil {
		var r []leafPath
		for i := 0; i < s.NumFields(); i++ {
			fa := "fa." + structKey(t) + "." + s.Field(i).Name()
			if expandStruct(s.Field(i).Type()) != nil {
				for _, x := range e.elemComps(s.Field(i).Type()) {
					r = append(r, leafPath{x.name, append([]string{fa}, x.chain...), x.sort})
				}
				continue
			}
			for k, so := range e.layout(s.Field(i).Type()) {
				r = append(r, leafPath{leafName("f:"+sanitize(fa)[3:], k), nil, so})
			}
		}
		return r
	}
	var r []leafPath
	for k, so := range e.layout(t) {
		r = append(r, leafPath{leafName("e:"+e.cellKey(t), k), []string{"#elem"}, so})
	}
	return r
}

// copyElems copies n elements between backing arrays (non-byte).
func (e *Engine) copyElems(st *State, t types.Type, dref, doff, n, sref, soff *Term) {
	c := e.c
	for _, lp := range e.elemComps(t) {
		lp := lp
		old := st.heap[lp.name]
		elem := len(lp.chain) == 1 && lp.chain[0] == "#elem"
		var key0 []*Term
		if elem {
			key0 = []*Term{dref, doff}
		} else {
			key0 = []*Term{dref}
		}
		if old == nil {
			old = e.base(lp.name, lp.sort, key0)
		}
		// decompose a key into (ref, idx)
		split := func(key []*Term) (*Term, *Term, func(ref, idx *Term) []*Term) {
			if elem {
				return key[0], key[1], func(r, i *Term) []*Term { return []*Term{r, i} }
			}
			k := key[0]
			var wrap []string
			for k.op == "app" && strings.HasPrefix(k.name, "fa.") {
				wrap = append(wrap, k.name)
				k = k.args[0]
			}
			if !isEA(k) {
				return nil, nil, nil
			}
			return k.args[0], k.args[1], func(r, i *Term) []*Term {
				x := eaTerm(e, r, i)
				for q := len(wrap) - 1; q >= 0; q-- {
					x = c.App(wrap[q], "Int", x)
				}
				return []*Term{x}
			}
		}
		nl := &layer{prev: old, kind: 'c', refs: []*Term{dref}}
		nl.cond = func(key []*Term) *Term {
			r, i, _ := split(key)
			if r == nil {
				return c.False
			}
			return c.And(c.Eq(r, dref), c.Le(doff, i), c.Lt(i, c.Add(doff, n)))
		}
		nl.copy = func(key []*Term) *Term {
			_, i, mk := split(key)
			return e.readLayer(nil, old, lp.name, mk(sref, c.Add(soff, c.Sub(i, doff))), lp.sort, 0)
		}
		st.heap[lp.name] = nl
	}
}

func (e *Engine) doAppend(st *State, cc *ssa.CallCommon, args []Val, pos token.Pos, ret func(st *State, v Val)) {
	c := e.c
	t := cc.Args[0].Type()
	if tp, ok := t.Underlying().(*types.Slice); !ok || len(args) < 2 {
		_ = tp
		ret(st, args[0])
		return
	}
	a := args[0]
	if isByteSlice(t) {
		var add *Term
		if isByteSlice(cc.Args[1].Type()) {
			add = e.bytesOf(st, args[1])
		} else {
			add = args[1][0]
		}
		s := c.Concat(e.bytesOf(st, a), add)
		n := c.Len(s)
		exact := func(st *State) { ret(st, e.newBytes(st, "append", s)) }
		if a[0].isInt(0) || c.Eq(a[2], a[3]) == c.True || st.flags["freshappend"] {
			exact(st)
			return
		}
		e.branch(st, c.Le(n, a[3]), func(s2 *State, yes bool) {
			if !yes {
				exact(s2)
				return
			}
			cont := e.readComp(s2, "bytes", []*Term{a[0]}, "String")
			end := c.Add(a[1], n)
			nc := c.Concat(c.Substr(cont, c.Int(0), c.Add(a[1], a[2])), add, c.Substr(cont, end, c.Sub(c.Len(cont), end)))
			e.writeComp(s2, "bytes", []*Term{a[0]}, nc)
			ret(s2, Val{a[0], a[1], n, a[3]})
		})
		return
	}
	et := t.Underlying().(*types.Slice).Elem()
	b := args[1]
	n := c.Add(a[2], b[2])
	key := typeKey(et)
	if i, ok := types.Unalias(et).(*types.Interface); ok && i.Empty() {
		key = "iface"
	}
	if h := e.hooks["onappend:"+key]; h != nil && b[2].isInt(1) && !e.inside(st, h) && len(h.Params) == 2 {
		ret0 := ret
		ret = func(s *State, v Val) {
			x := e.load(s, eaTerm(e, b[0], b[1]), et)
			e.enter(s, h, []Val{a, x}, nil, false, func(s2 *State, _ Val) { ret0(s2, v) })
		}
	}
	realloc := func(s *State) {
		r := c.Alloc("append")
		e.copyElems(s, et, r, c.Int(0), a[2], a[0], a[1])
		if b[2].op == "int" && b[2].ival.Int64() <= 8 {
			for k := int64(0); k < b[2].ival.Int64(); k++ {
				x := e.load(s, eaTerm(e, b[0], c.Add(b[1], c.Int(k))), et)
				e.store(s, eaTerm(e, r, c.Add(a[2], c.Int(k))), et, x)
			}
		} else {
			e.copyElems(s, et, r, a[2], b[2], b[0], b[1])
		}
		cp := c.Fresh("cap", "Int")
		s.assume(e, c.Le(n, cp))
		ret(s, Val{r, c.Int(0), n, cp})
	}
	inplace := func(s *State) {
		if b[2].op == "int" && b[2].ival.Int64() <= 8 {
			for k := int64(0); k < b[2].ival.Int64(); k++ {
				x := e.load(s, eaTerm(e, b[0], c.Add(b[1], c.Int(k))), et)
				e.store(s, eaTerm(e, a[0], c.Add(c.Add(a[1], a[2]), c.Int(k))), et, x)
			}
		} else {
			e.copyElems(s, et, a[0], c.Add(a[1], a[2]), b[2], b[0], b[1])
		}
		ret(s, Val{a[0], a[1], n, a[3]})
	}
	// A slice known to be full, nil or built here may be treated as reallocated: nobody else sees it.
	local := false
	if r := rootAlloc(a[0]); r != nil {
		local = true
	}
	if a[0].isInt(0) || local || c.Eq(a[2], a[3]) == c.True || st.flags["freshappend"] {
		realloc(st)
		return
	}
	e.branch(st, c.Le(n, a[3]), func(s2 *State, yes bool) {
		if yes {
			inplace(s2)
		} else {
			realloc(s2)
		}
	})
}
