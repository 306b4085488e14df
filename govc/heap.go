package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type Val []*Term

// ---------- layout of Go types ----------

const modPath = "github.com/philippseith/signalr"

func typeKey(t types.Type) string {
	t = noNames(t)
	s := types.TypeString(t, func(p *types.Package) string {
		if p.Path() == modPath {
			return ""
		}
		return p.Path()
	})
	return s
}

// noNames drops the parameter names of function types: they are no part of the type.
func noNames(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Signature:
		tup := func(t *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < t.Len(); i++ {
				vs = append(vs, types.NewParam(token.NoPos, nil, "", noNames(t.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(u.Params()), tup(u.Results()), u.Variadic())
	case *types.Pointer:
		if n := noNames(u.Elem()); n != u.Elem() {
			return types.NewPointer(n)
		}
	case *types.Slice:
		if n := noNames(u.Elem()); n != u.Elem() {
			return types.NewSlice(n)
		}
	case *types.Array:
		if n := noNames(u.Elem()); n != u.Elem() {
			return types.NewArray(n, u.Len())
		}
	case *types.Chan:
		if n := noNames(u.Elem()); n != u.Elem() {
			return types.NewChan(u.Dir(), n)
		}
	case *types.Map:
		if k, n := noNames(u.Key()), noNames(u.Elem()); k != u.Key() || n != u.Elem() {
			return types.NewMap(k, n)
		}
	}
	return t
}

func structKey(t types.Type) string { return typeKey(t) }

// expandStruct reports the struct type whose fields are laid out, or nil when opaque.
func expandStruct(t types.Type) *types.Struct {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := n.Obj().Pkg()
		if p != nil && p.Path() != modPath {
			for i := 0; i < u.NumFields(); i++ {
				if !u.Field(i).Exported() {
					return nil
				}
			}
		}
	}
	return u
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
}

func (e *Engine) layout(t types.Type) []string {
	if l, ok := e.lay[t]; ok {
		return l
	}
	l := e.layout1(t)
	e.lay[t] = l
	return l
}

func (e *Engine) layout1(t types.Type) []string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []string{"Bool"}
		case u.Info()&types.IsString != 0:
			return []string{"String"}
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return []string{"F64"}
		case u.Kind() == types.UntypedNil:
			return []string{"Int"}
		case u.Kind() == types.Invalid:
			return nil
		}
		return []string{"Int"}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []string{"Int"}
	case *types.Interface:
		return []string{"Any"}
	case *types.Slice:
		return []string{"Int", "Int", "Int", "Int"}
	case *types.Struct:
		if expandStruct(t) == nil {
			return []string{"Int"}
		}
		var r []string
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, e.layout(u.Field(i).Type())...)
		}
		return r
	case *types.Array:
		if u.Len() > 64 {
			return []string{"Int"}
		}
		var r []string
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, e.layout(u.Elem())...)
		}
		return r
	case *types.Tuple:
		var r []string
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.layout(u.At(i).Type())...)
		}
		return r
	}
	return []string{"Int"}
}

func (e *Engine) zeroSort(s string) *Term {
	switch s {
	case "Int":
		return e.c.Int(0)
	case "Bool":
		return e.c.False
	case "String":
		return e.c.Str("")
	case "Any":
		return e.c.Nil()
	}
	return e.c.App("f64.zero", "F64")
}

func (e *Engine) zero(t types.Type) Val {
	var v Val
	for _, s := range e.layout(t) {
		v = append(v, e.zeroSort(s))
	}
	return v
}

// freshVal makes an arbitrary value of type t, with its type invariants as facts.
func (e *Engine) freshVal(st *State, hint string, t types.Type) Val {
	var v Val
	for i, s := range e.layout(t) {
		h := hint
		if i > 0 {
			h = fmt.Sprintf("%s.%d", hint, i)
		}
		v = append(v, e.c.Fresh(h, s))
	}
	e.typeFacts(st, t, v)
	return v
}

// typeFacts adds the invariants every value of a Go type satisfies.
func (e *Engine) typeFacts(st *State, t types.Type, v Val) {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(u)
			if v[0].op != "int" {
				if lo != nil && u.Info()&types.IsUnsigned != 0 {
					e.tfact(st, c.Le(c.Int(0), v[0]))
				}
				if u.Kind() == types.Int8 || u.Kind() == types.Uint8 || u.Kind() == types.Int16 || u.Kind() == types.Uint16 || u.Kind() == types.Int32 || u.Kind() == types.Uint32 {
					e.tfact(st, c.Le(c.BigInt(lo), v[0]))
					e.tfact(st, c.Le(v[0], c.BigInt(hi)))
				}
			}
		}
	case *types.Slice:
		e.tfact(st, c.Le(c.Int(0), v[1]))
		e.tfact(st, c.Le(c.Int(0), v[2]))
		e.tfact(st, c.Le(v[2], v[3]))
		if e.panics(st) {
			e.tfact(st, c.Le(v[3], c.Int(1<<47))) // the address space
		}
		e.tfact(st, c.Or(c.Not(c.Eq(v[0], c.Int(0))), c.Eq(v[3], c.Int(0))))
		if isByteSlice(t) {
			e.bytesBound(st, v)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
	case *types.Struct:
		if expandStruct(t) == nil {
			return
		}
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(e.layout(u.Field(i).Type()))
			e.typeFacts(st, u.Field(i).Type(), v[o:o+n])
			o += n
		}
	case *types.Tuple:
		o := 0
		for i := 0; i < u.Len(); i++ {
			n := len(e.layout(u.At(i).Type()))
			e.typeFacts(st, u.At(i).Type(), v[o:o+n])
			o += n
		}
	}
}

// bytesBound relates a byte slice header to its backing content.
func (e *Engine) bytesBound(st *State, v Val) {
	c := e.c
	if v[0].op == "int" {
		return
	}
	cont := e.readComp(st, "bytes", []*Term{v[0]}, "String")
	e.tfact(st, c.Le(c.Add(v[1], v[3]), c.Len(cont)))
}

// tfact assumes a type invariant (not while evaluating a formula).
func (e *Engine) tfact(st *State, t *Term) {
	if !e.noSolve {
		st.assume(e, t)
	}
}

// ---------- heap ----------

type layer struct {
	prev  *layer
	kind  byte // b base, w write, h havoc, c copy
	key   []*Term
	val   *Term
	fn    string
	cond  func(key []*Term) *Term
	copy  func(key []*Term) *Term // for kind c: value when cond holds
	depth int
	refs  []*Term // kinds h, c: the objects it concerns (nil: any)
}

// objectOf is the object whose memory a key is in.
func objectOf(key []*Term) *Term {
	k := key[0]
	for isIP(k) {
		k = k.args[0]
	}
	return k
}

type comp struct {
	name  string
	sort  string
	ksort []string
}

func (e *Engine) compOf(name, sort string, key []*Term) *comp {
	cp, ok := e.comps[name]
	if !ok {
		cp = &comp{name: name, sort: sort}
		for _, k := range key {
			cp.ksort = append(cp.ksort, k.sort)
		}
		e.comps[name] = cp
	}
	return cp
}

func rootAlloc(t *Term) *Term {
	for isIP(t) {
		t = t.args[0]
	}
	if t.op == "alloc" {
		return t
	}
	return nil
}

func (e *Engine) base(name, sort string, key []*Term) *layer {
	e.compOf(name, sort, key)
	if b, ok := e.bases[name]; ok {
		return b
	}
	var ks []string
	for _, k := range key {
		ks = append(ks, k.sort)
	}
	b := &layer{kind: 'b'}
	fn := sanitize("h0." + name)
	if _, ok := e.c.funs[fn]; !ok {
		e.c.funs[fn] = &FunDecl{name: fn, args: ks, sort: sort, birth: 0}
	}
	b.fn = fn
	e.bases[name] = b
	return b
}

func (e *Engine) keyEq(a, b []*Term) *Term {
	r := e.c.True
	for i := range a {
		r = e.c.And(r, e.c.Eq(a[i], b[i]))
		if r == e.c.False {
			return r
		}
	}
	return r
}

func (e *Engine) readComp(st *State, name string, key []*Term, sort string) *Term {
	l := st.heap[name]
	if l == nil {
		l = e.base(name, sort, key)
	}
	return e.readLayer(st, l, name, key, sort, 0)
}

func (e *Engine) readLayer(st *State, l *layer, name string, key []*Term, sort string, d int) *Term {
	c := e.c
	for {
		switch l.kind {
		case 'b':
			for _, k := range key {
				if bornHere(k) {
					return e.zeroSort(sort)
				}
			}
			return c.App(l.fn, sort, key...)
		case 'w':
			eq := e.keyEq(l.key, key)
			if eq == c.True {
				return l.val
			}
			if eq != c.False && st != nil && !e.noSolve {
				eq = st.known(e, eq)
				if eq == c.True {
					return l.val
				}
			} else if eq != c.False && st != nil {
				eq = st.apart(e, eq)
			}
			if eq != c.False {
				return c.Ite(eq, l.val, e.readLayer(st, l.prev, name, key, sort, d+1))
			}
			l = l.prev
		case 'h':
			k := c.True
			if l.cond != nil {
				k = l.cond(key)
			}
			if k == c.True {
				return c.App(l.fn, sort, key...)
			}
			if k != c.False {
				return c.Ite(k, c.App(l.fn, sort, key...), e.readLayer(st, l.prev, name, key, sort, d+1))
			}
			l = l.prev
		case 'c':
			k := l.cond(key)
			if k == c.False {
				l = l.prev
				continue
			}
			v := l.copy(key)
			if k == c.True {
				return v
			}
			return c.Ite(k, v, e.readLayer(st, l.prev, name, key, sort, d+1))
		}
	}
}

// bornHere tells that k is, or is built from, something allocated during the task: nothing was stored for it before.
func bornHere(k *Term) bool {
	if k.sort == "Int" && rootAlloc(k) != nil {
		return true
	}
	if k.op == "box" && len(k.args) > 0 {
		return bornHere(k.args[0])
	}
	if k.op == "app" && strings.HasPrefix(k.name, "inj.") {
		for _, a := range k.args {
			if bornHere(a) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) writeComp(st *State, name string, key []*Term, val *Term) {
	l := st.heap[name]
	if l == nil {
		l = e.base(name, val.sort, key)
	}
	st.heap[name] = &layer{prev: l, kind: 'w', key: key, val: val}
}

func (e *Engine) havocComp(st *State, name string, cond func(key []*Term) *Term) {
	cp := e.comps[name]
	if cp == nil {
		return
	}
	l := st.heap[name]
	if l == nil {
		l = e.bases[name]
	}
	fn := e.c.FreshFun("h."+name, cp.ksort, cp.sort)
	st.heap[name] = &layer{prev: l, kind: 'h', fn: fn, cond: cond}
}

// havocObjects forgets the memory of refs in a component.
func (e *Engine) havocObjects(st *State, name string, refs []*Term, cond func(key []*Term) *Term) {
	e.havocComp(st, name, func(key []*Term) *Term {
		k := cond(key)
		if k == e.c.False {
			return k
		}
		o := objectOf(key)
		m := e.c.False
		for _, r := range refs {
			m = e.c.Or(m, e.c.Eq(o, r))
		}
		return e.c.And(m, k)
	})
	st.heap[name].refs = refs
}

// ---------- typed access ----------

// faName is the interior pointer constructor of a field.
func faTerm(e *Engine, ptr *Term, st types.Type, i int) *Term {
	u := st.Underlying().(*types.Struct)
	return e.c.App("fa."+structKey(st)+"."+u.Field(i).Name(), "Int", ptr)
}

func eaTerm(e *Engine, ref, idx *Term) *Term { return e.c.App("ea.", "Int", ref, idx) }

func (e *Engine) compName(ptr *Term, t types.Type) (string, []*Term) {
	if ptr.op == "app" && strings.HasPrefix(ptr.name, "fa.") {
		return "f:" + ptr.name[3:], []*Term{ptr.args[0]}
	}
	if isEA(ptr) {
		return "e:" + e.cellKey(t), []*Term{ptr.args[0], ptr.args[1]}
	}
	if ptr.op == "glob" {
		return "g:" + ptr.name, []*Term{ptr}
	}
	return "c:" + e.cellKey(t), []*Term{ptr}
}

func (e *Engine) cellKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Name()
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return typeKey(u)
	case *types.Interface:
		return "iface"
	}
	return typeKey(t)
}

func (e *Engine) load(st *State, ptr *Term, t types.Type) Val {
	if ptr.op == "glob" && strings.Contains(ptr.name, ".") && typeKey(t) == "error" {
		// sentinel errors of other packages are never changed
		return Val{e.c.Box("*errors.errorString", ptr)}
	}
	if s := expandStruct(t); s != nil {
		var v Val
		for i := 0; i < s.NumFields(); i++ {
			v = append(v, e.load(st, faTerm(e, ptr, t, i), s.Field(i).Type())...)
		}
		return v
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
		var v Val
		for i := int64(0); i < a.Len(); i++ {
			v = append(v, e.load(st, eaTerm(e, ptr, e.c.Int(i)), a.Elem())...)
		}
		return v
	}
	if isByte(t) && isEA(ptr) {
		cont := e.readComp(st, "bytes", []*Term{ptr.args[0]}, "String")
		return Val{e.byteAt(cont, ptr.args[1])}
	}
	name, key := e.compName(ptr, t)
	e.onAccess(st, name, key, false)
	lay := e.layout(t)
	v := make(Val, len(lay))
	for i, s := range lay {
		v[i] = e.readComp(st, leafName(name, i), key, s)
	}
	// type invariants of loaded values
	e.loadFacts(st, t, v)
	e.onLoaded(st, name, key, v)
	return v
}

func (e *Engine) loadFacts(st *State, t types.Type, v Val) {
	sym := false
	for _, x := range v {
		if !x.isConst() && x.op != "alloc" {
			sym = true
		}
	}
	if !sym {
		return
	}
	k := "tf"
	for _, x := range v {
		k += fmt.Sprintf(",%d", x.id)
	}
	if st.hasTF(k) {
		return
	}
	st.tf = &tfNode{k, st.tf}
	e.typeFacts(st, t, v)
}

func leafName(n string, i int) string {
	if i == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, i)
}

func (e *Engine) byteAt(cont, idx *Term) *Term {
	if cont.op == "str" && idx.op == "int" && idx.ival.IsInt64() && int(idx.ival.Int64()) < len(cont.name) && idx.ival.Sign() >= 0 {
		return e.c.Int(int64(cont.name[idx.ival.Int64()]))
	}
	t := e.c.S("s.tocode", "Int", e.c.Substr(cont, idx, e.c.Int(1)))
	return t
}

func (e *Engine) store(st *State, ptr *Term, t types.Type, v Val) {
	if s := expandStruct(t); s != nil {
		o := 0
		for i := 0; i < s.NumFields(); i++ {
			n := len(e.layout(s.Field(i).Type()))
			e.store(st, faTerm(e, ptr, t, i), s.Field(i).Type(), v[o:o+n])
			o += n
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
		n := len(e.layout(a.Elem()))
		for i := int64(0); i < a.Len(); i++ {
			e.store(st, eaTerm(e, ptr, e.c.Int(i)), a.Elem(), v[int(i)*n:int(i)*n+n])
		}
		return
	}
	if isByte(t) && isEA(ptr) {
		c := e.c
		ref, idx := ptr.args[0], ptr.args[1]
		cont := e.readComp(st, "bytes", []*Term{ref}, "String")
		one := c.Int(1)
		var ch *Term
		if v[0].op == "int" {
			ch = c.Str(string([]byte{byte(v[0].ival.Int64())}))
		} else {
			ch = c.S("s.fromcode", "String", v[0])
			st.assume(e, c.Eq(c.Len(ch), one))
		}
		nl := c.Sub(c.Sub(c.Len(cont), idx), one)
		nc := c.Concat(c.Substr(cont, c.Int(0), idx), ch, c.Substr(cont, c.Add(idx, one), nl))
		e.writeComp(st, "bytes", []*Term{ref}, nc)
		return
	}
	name, key := e.compName(ptr, t)
	e.onAccess(st, name, key, true)
	e.onReplaced(st, name, key, v)
	for i := range v {
		e.writeComp(st, leafName(name, i), key, v[i])
	}
	for _, x := range v {
		e.escape(st, x, ptr)
	}
}

// escape marks objects whose reference is stored somewhere else.
func (e *Engine) escape(st *State, x *Term, into *Term) {
	if r := rootAllocAny(x); r != nil {
		if into != nil {
			if q := rootAlloc(into); q != nil && !st.escaped[q] {
				// stored inside a local object: escapes when that object does
				st.holds = &holdNode{q, r, st.holds}
				return
			}
		}
		e.markEscaped(st, r)
	}
}

func rootAllocAny(x *Term) *Term {
	if x.sort == "Any" && x.op == "box" {
		for _, a := range x.args {
			if r := rootAllocAny(a); r != nil {
				return r
			}
		}
		return nil
	}
	if x.sort == "Int" {
		return rootAlloc(x)
	}
	return nil
}

func (e *Engine) markEscaped(st *State, r *Term) {
	if st.escaped[r] {
		return
	}
	st.escaped[r] = true
	for h := st.holds; h != nil; h = h.prev {
		if h.in == r {
			e.markEscaped(st, h.obj)
		}
	}
	if fv := e.fnTab[r]; fv != nil {
		for _, b := range fv.bind {
			for _, x := range b {
				if q := rootAllocAny(x); q != nil {
					e.markEscaped(st, q)
				}
			}
		}
	}
}

type holdNode struct {
	in, obj *Term
	prev    *holdNode
}

type tfNode struct {
	k    string
	prev *tfNode
}

// bytes of a slice as a string term
func (e *Engine) bytesOf(st *State, v Val) *Term {
	if v[2].isInt(0) || v[0].isInt(0) {
		return e.c.Str("")
	}
	cont := e.readComp(st, "bytes", []*Term{v[0]}, "String")
	return e.c.Substr(cont, v[1], v[2])
}

func (e *Engine) newBytes(st *State, hint string, s *Term) Val {
	r := e.c.Alloc(hint)
	e.writeComp(st, "bytes", []*Term{r}, s)
	n := e.c.Len(s)
	return Val{r, e.c.Int(0), n, n}
}

// mapComps names the components of a map type.
func (e *Engine) mapName(t types.Type) string { return "m:" + typeKey(t.Underlying()) }

func (e *Engine) mapHas(st *State, mt types.Type, m *Term, key Val) *Term {
	k := append([]*Term{m}, key...)
	if m.isInt(0) {
		return e.c.False
	}
	t := e.readComp(st, e.mapName(mt)+".dom", k, "Bool")
	if !t.isConst() {
		e.tfact(st, e.c.Or(e.c.Not(t), e.c.Not(e.c.Eq(m, e.c.Int(0))))) // a nil map is empty
	}
	return t
}

func (e *Engine) mapGet(st *State, mt types.Type, m *Term, key Val) Val {
	vt := mt.Underlying().(*types.Map).Elem()
	k := append([]*Term{m}, key...)
	lay := e.layout(vt)
	v := make(Val, len(lay))
	for i, s := range lay {
		v[i] = e.readComp(st, leafName(e.mapName(mt)+".val", i), k, s)
	}
	e.loadFacts(st, vt, v)
	return v
}

func (e *Engine) mapLen(st *State, mt types.Type, m *Term) *Term {
	if m.isInt(0) {
		return e.c.Int(0)
	}
	t := e.readComp(st, "maplen", []*Term{m}, "Int")
	if !t.isConst() {
		e.tfact(st, e.c.Le(e.c.Int(0), t))
		e.tfact(st, e.c.Or(e.c.Not(e.c.Eq(m, e.c.Int(0))), e.c.Eq(t, e.c.Int(0))))
	}
	return t
}

func (e *Engine) mapSet(st *State, mt types.Type, m *Term, key, v Val) {
	c := e.c
	k := append([]*Term{m}, key...)
	had := e.mapHas(st, mt, m, key)
	n := e.mapLen(st, mt, m)
	e.writeComp(st, "maplen", []*Term{m}, c.Add(n, c.Ite(had, c.Int(0), c.Int(1))))
	e.writeComp(st, e.mapName(mt)+".dom", k, c.True)
	for i := range v {
		e.writeComp(st, leafName(e.mapName(mt)+".val", i), k, v[i])
		e.escape(st, v[i], m)
	}
}

func (e *Engine) mapDelete(st *State, mt types.Type, m *Term, key Val) {
	c := e.c
	k := append([]*Term{m}, key...)
	had := e.mapHas(st, mt, m, key)
	n := e.mapLen(st, mt, m)
	e.tfact(st, c.Or(c.Not(had), c.Le(c.Int(1), n)))
	e.writeComp(st, "maplen", []*Term{m}, c.Sub(n, c.Ite(had, c.Int(1), c.Int(0))))
	e.writeComp(st, e.mapName(mt)+".dom", k, c.False)
	vt := mt.Underlying().(*types.Map).Elem()
	for i, z := range e.zero(vt) {
		e.writeComp(st, leafName(e.mapName(mt)+".val", i), k, z)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
