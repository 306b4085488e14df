package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Engine, st *State, fn *ssa.Function, args []Val, pos token.Pos, ret func(st *State, v Val))

type rigid struct {
	t types.Type
	v Val
}

var intrinsics map[string]intrinsic

func typeArg(fn *ssa.Function, i int) types.Type { return fn.TypeArgs()[i] }

func constStr(t *Term) string {
	if t.op == "str" {
		return t.name
	}
	return t.String()
}

func init() {
	intrinsics = map[string]intrinsic{
		"gvAny": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, e.freshVal(st, "any", typeArg(fn, 0)))
		},
		"gvRigid": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			v := e.freshVal(st, "rigid", typeArg(fn, 0))
			e.rigids = append(e.rigids, rigid{typeArg(fn, 0), v})
			ret(st, v)
		},
		"gvAssume": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			st.assume(e, st.known(e, a[0][0]))
			if !st.dead {
				ret(st, nil)
			}
		},
		"gvCheck": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.check(st, constStr(a[0][0]), a[1][0], pos)
			if !st.dead {
				ret(st, nil)
			}
		},
		"gvCover": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.cover(st, constStr(a[0][0]))
			ret(st, nil)
		},
		"gvFork": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			n := a[0][0].ival.Int64()
			for i := n - 1; i >= 0; i-- {
				s := st
				if i > 0 {
					s = st.clone()
				}
				s.note("%s: choice %d", e.pos(pos), i)
				ret(s, Val{e.c.Int(i)})
			}
		},
		"gvGet": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, e.gvGet(st, constStr(a[0][0]), a[1][0], typeArg(fn, 0)))
		},
		"gvSet": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.gvSet(st, constStr(a[0][0]), a[1][0], a[2])
			ret(st, nil)
		},
		"gvHavoc": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			// forget a component: "gv:name", "f:T.f", ...
			n := constStr(a[0][0])
			for _, name := range sortedKeys(e.comps) {
				if name == n || strings.HasPrefix(name, n+"#") || strings.HasSuffix(n, "*") && strings.HasPrefix(name, n[:len(n)-1]) {
					e.havocComp(st, name, nil)
				}
			}
			ret(st, nil)
		},
		"gvHavocSM": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.smWrite(st, a[0][0], a[1][0], e.c.Fresh("sm.dom", "Bool"), e.c.Fresh("sm.val", "Any"))
			ret(st, nil)
		},
		"gvNot": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.Not(a[0][0])})
		},
		"gvImp": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.Imp(a[0][0], a[1][0])})
		},
		"gvAnd": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.And(a[0][0], a[1][0])})
		},
		"gvOr": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.Or(a[0][0], a[1][0])})
		},
		"gvIff": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.Eq(a[0][0], a[1][0])})
		},
		"gvIte": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			var r Val
			for i := range a[1] {
				r = append(r, e.c.Ite(a[0][0], a[1][i], a[2][i]))
			}
			ret(st, r)
		},
		"gvMentions": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.Bool(a[0][0].mentions(sanitize(constStr(a[1][0])), map[*Term]bool{}))})
		},
		"gvPure": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			args := e.flatArgs(st, a[1])
			ret(st, e.pureVal(st, constStr(a[0][0]), typeArg(fn, 0), args))
		},
		"gvInj": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			args := e.flatArgs(st, a[1])
			t := typeArg(fn, 0)
			lay := e.layout(t)
			if len(lay) != 1 {
				e.unsupported(st, "gvInj of %s", t)
				return
			}
			ret(st, Val{e.c.App("inj."+constStr(a[0][0]), lay[0], args...)})
		},
		"gvKey": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			var args []*Term
			for i := int64(0); i < a[0][2].ival.Int64(); i++ {
				args = append(args, e.load(st, eaTerm(e, a[0][0], e.c.Add(a[0][1], e.c.Int(i))), types.NewInterfaceType(nil, nil))[0])
			}
			ret(st, Val{e.c.App("inj.key", "Int", args...)})
		},
		"gvJoin": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.join(st, pos, ret)
		},
		"gvSpawn": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			st.spawn = constStr(a[0][0])
			ret(st, nil)
		},
		"gvFlag": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			st.flags[constStr(a[0][0])] = a[1][0] == e.c.True
			ret(st, nil)
		},
		"gvOpen": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			t := a[0][0]
			if t.op == "box" {
				t = t.args[0]
			}
			st.flags["open:"+fmt.Sprint(t.id)] = true
			ret(st, nil)
		},
		"gvClosed": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			t := a[0][0]
			if t.op == "box" {
				t = t.args[0]
			}
			e.compOf("chanclosed", "Bool", []*Term{t})
			ret(st, Val{e.readComp(st, "chanclosed", []*Term{t}, "Bool")})
		},
		"gvSetClosed": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			t := a[0][0]
			if t.op == "box" {
				t = t.args[0]
			}
			e.compOf("chanclosed", "Bool", []*Term{t})
			e.writeComp(st, "chanclosed", []*Term{t}, a[1][0])
			ret(st, nil)
		},
		"gvQueued": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			t := a[0][0]
			if t.op == "box" {
				t = t.args[0]
			}
			n := e.c.Int(0)
			if q := st.queues[t]; q != nil {
				if q.exact {
					n = e.c.Int(int64(len(q.vals)))
				} else {
					n = e.c.Fresh("queued", "Int")
				}
			}
			ret(st, Val{n})
		},
		"gvUnreachable": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.check(st, constStr(a[0][0]), e.c.False, pos)
		},
		"gvVisited": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			kt := typeArg(fn, 0)
			r := e.c.False
			for _, it := range st.iters {
				if it.kind == "map" && types.Identical(it.mt.Underlying().(*types.Map).Key(), kt) {
					vis := "iter:" + e.mapName(it.mt)
					k := append([]*Term{it.it}, a[0]...)
					e.compOf(vis, "Bool", k)
					r = e.c.Or(r, e.readComp(st, vis, k, "Bool"))
				}
			}
			ret(st, Val{r})
		},
		"gvHeld": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			t := a[0][0]
			if t.op == "box" {
				t = t.args[0]
			}
			ret(st, Val{e.c.Bool(st.locks[t] != nil)})
		},
		"gvNoLocks": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.checkLocksReleased(st, constStr(a[0][0]))
			ret(st, nil)
		},
		"gvAllocated": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			t := a[0][0]
			if t.op == "box" && len(t.args) > 0 {
				t = t.args[0]
			}
			ret(st, Val{e.c.Bool(rootAlloc(t) != nil)})
		},
		"gvNow": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.now(st)})
		},
		"gvTime": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{a[0][0]})
		},
		"gvSubstr": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.Substr(a[0][0], a[1][0], a[2][0])})
		},
		"gvPrefix": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.S("s.prefixof", "Bool", a[1][0], a[0][0])})
		},
		"gvContains": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			if a[0][0].op == "str" && a[1][0].op == "str" {
				ret(st, Val{e.c.Bool(strings.Contains(a[0][0].name, a[1][0].name))})
				return
			}
			ret(st, Val{e.c.S("s.contains", "Bool", a[0][0], a[1][0])})
		},
		"gvIndex": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.S("s.indexof", "Int", a[0][0], a[1][0], e.c.Int(0))})
		},
		"gvZeros": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.zeros(st, a[0][0])})
		},
		"gvSetBytes": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			// overwrite the first len(s) bytes of a slice
			c := e.c
			dst, src := a[0], a[1][0]
			cont := e.readComp(st, "bytes", []*Term{dst[0]}, "String")
			n := c.Len(src)
			nc := c.Concat(c.Substr(cont, c.Int(0), dst[1]), src, c.Substr(cont, c.Add(dst[1], n), c.Sub(c.Len(cont), c.Add(dst[1], n))))
			e.writeComp(st, "bytes", []*Term{dst[0]}, nc)
			ret(st, nil)
		},
		"gvTypeName": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.Typ(a[0][0])})
		},
		"gvIs": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			t := typeArg(fn, 0)
			e.regBox(t)
			ret(st, Val{e.c.Eq(e.c.Typ(a[0][0]), e.c.Int(int64(e.c.TypeID(typeKey(t)))))})
		},
		"gvAs": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			t := typeArg(fn, 0)
			e.regBox(t)
			var v Val
			for q, s := range e.layout(t) {
				v = append(v, e.c.Unbox(typeKey(t), q, s, a[0][0]))
			}
			e.loadFacts(st, t, v)
			ret(st, v)
		},
		"gvCall": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			fv := e.fnTab[a[0][0]]
			if fv == nil || fv.fn == nil {
				ret(st, nil)
				return
			}
			e.callFn(st, fv.fn, nil, fv.bind, pos, false, ret)
		},
		"gvKnownFunc": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.Bool(e.fnTab[a[0][0]] != nil)})
		},
		"gvRequireModel": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, nil)
		},
		"gvDead": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {},
		"gvSame": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			r := e.c.True
			for i := range a[0] {
				r = e.c.And(r, e.c.Eq(a[0][i], a[1][i]))
			}
			ret(st, Val{r})
		},
		"gvElem": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			// unchecked element access
			e.instantiate(st, typeArg(fn, 0), a[1][0])
			ret(st, e.load(st, eaTerm(e, a[0][0], e.c.Add(a[0][1], a[1][0])), typeArg(fn, 0)))
		},
		"gvChar": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.char(a[0][0])})
		},
		"gvLent": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			// a slice of memory which belongs to an object
			r := e.c.App("inj.lent", "Int", a[0][0])
			cp := e.c.Fresh("cap", "Int")
			st.assume(e, e.c.Le(a[2][0], cp))
			st.assume(e, e.c.App("p.owned", "Bool", r))
			ret(st, Val{r, a[1][0], a[2][0], cp})
		},
		"gvOwned": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.owned(a[0][0])})
		},
		"gvApart": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.Not(e.c.Eq(a[0][0], a[1][0]))})
		},
		"gvSetLent": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			r := e.c.App("inj.lent", "Int", a[0][0])
			st.assume(e, e.c.App("p.owned", "Bool", r))
			e.writeComp(st, "bytes", []*Term{r}, a[1][0])
			ret(st, nil)
		},
		"gvTag": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			// the tag of a field; "-" if there is no such field
			t := "-"
			if s, ok := typeArg(fn, 0).Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == constStr(a[0][0]) {
						t = s.Tag(i)
					}
				}
			}
			ret(st, Val{e.c.Str(t)})
		},
		"gvNumFields": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			n := 0
			if s, ok := typeArg(fn, 0).Underlying().(*types.Struct); ok {
				n = s.NumFields()
			}
			ret(st, Val{e.c.Int(int64(n))})
		},
		"gvJSON": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, e.jsonVal(st, a[0][0], constStr(a[1][0]), typeArg(fn, 0)))
		},
		"gvJSONDecode": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.jsonDecode(st, a[0][0], a[1][0], a[2][0], ret)
		},
		"gvInit": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			// the initialisation of the package variables
			f := e.pkg.Func("init")
			st.assume(e, e.c.Not(e.load(st, e.global(e.pkg.Members["init$guard"].(*ssa.Global)), types.Typ[types.Bool])[0]))
			e.enter(st, f, nil, nil, false, ret)
		},
		"gvJSONEncode": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.jsonEncode(st, a[0][0], a[1][0], a[2][0], ret)
		},
		"gvPrint": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			if e.debug > 0 && e.dry == 0 {
				e.dbg("print %s: %v", e.pos(pos), e.flatArgs(st, a[0]))
			}
			ret(st, nil)
		},
	}
}

func (e *Engine) char(code *Term) *Term {
	if code.op == "int" {
		return e.c.Str(string([]byte{byte(code.ival.Int64())}))
	}
	return e.c.S("s.fromcode", "String", code)
}

// owned: the memory belongs to a buffer
func (e *Engine) owned(ref *Term) *Term {
	switch {
	case ref.op == "alloc" || ref.op == "int":
		return e.c.False
	case ref.op == "app" && ref.name == "inj.lent":
		return e.c.True
	case ref.op == "ite":
		return e.c.Ite(ref.args[0], e.owned(ref.args[1]), e.owned(ref.args[2]))
	}
	return e.c.App("p.owned", "Bool", ref)
}

// jsonVal is what field tag of the JSON object s decodes to.
func (e *Engine) jsonVal(st *State, s *Term, tag string, t types.Type) Val {
	v := e.pureVal(st, "json."+typeKey(t), t, Val{s, e.c.Str(tag)})
	if _, sl := t.Underlying().(*types.Slice); sl {
		e.tfact(st, e.c.Le(v[2], e.c.Int(1<<40))) // it was decoded from memory
	}
	if isByteSlice(t) {
		e.tfact(st, e.c.Not(e.c.Eq(v[0], e.c.Int(0)))) // json.RawMessage has at least one byte
		e.tfact(st, e.c.Lt(e.c.Int(0), v[2]))
		e.bytesBound(st, v)
	}
	return v
}

// jsonDecode models json.Unmarshal to a pointer to a struct: fields which are not in the object keep their value,
// if it fails the fields may have got any value.
func (e *Engine) jsonDecode(st *State, s, dst, ok *Term, ret func(*State, Val)) {
	if dst.op != "box" || e.boxT[dst.name] == nil {
		e.unsupported(st, "json.Unmarshal to a value of unknown type")
		return
	}
	pt, isPtr := e.boxT[dst.name].Underlying().(*types.Pointer)
	if !isPtr {
		e.unsupported(st, "json.Unmarshal to %s", dst.name)
		return
	}
	p := dst.args[0]
	str, isStruct := pt.Elem().Underlying().(*types.Struct)
	if !isStruct {
		if ok == e.c.True {
			e.store(st, p, pt.Elem(), e.jsonVal(st, s, "", pt.Elem()))
		} else {
			e.store(st, p, pt.Elem(), e.freshVal(st, "json", pt.Elem()))
		}
		ret(st, nil)
		return
	}
	for i := 0; i < str.NumFields(); i++ {
		tag := reflect.StructTag(str.Tag(i)).Get("json")
		if !str.Field(i).Exported() || tag == "-" {
			continue
		}
		if k := strings.Index(tag, ","); k >= 0 {
			tag = tag[:k]
		}
		if tag == "" {
			tag = str.Field(i).Name()
		}
		ft := str.Field(i).Type()
		fp := faTerm(e, p, pt.Elem(), i)
		if ok != e.c.True {
			v := e.freshVal(st, "json", ft)
			if _, sl := ft.Underlying().(*types.Slice); sl {
				st.assume(e, e.c.Le(v[2], e.c.Int(1<<40)))
			}
			e.store(st, fp, ft, v)
			continue
		}
		old := e.load(st, fp, ft)
		v := e.jsonVal(st, s, tag, ft)
		has := e.c.App("p.json.has", "Bool", s, e.c.Str(tag))
		n := make(Val, len(v))
		for q := range v {
			n[q] = e.c.Ite(has, v[q], old[q])
		}
		e.store(st, fp, ft, n)
	}
	ret(st, nil)
}

// jsonFields are the fields of the messages of SignalR.
var jsonFields = []string{"type", "target", "invocationId", "arguments", "streamIds", "item", "result", "error", "allowReconnect", "headers", "protocol", "version"}

// jsonEncode models json.Marshal: s is the object made of the struct v (or of a struct v points to), of slices only the
// length and element k are known. Of other values nothing is known.
func (e *Engine) jsonEncode(st *State, s, v, k *Term, ret func(*State, Val)) {
	if v.op != "box" || e.boxT[v.name] == nil {
		ret(st, nil)
		return
	}
	t := e.boxT[v.name]
	vals := Val(v.args)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		vals = e.load(st, v.args[0], t)
	}
	str, ok := t.Underlying().(*types.Struct)
	if !ok {
		ret(st, nil)
		return
	}
	seen := map[string]bool{}
	at := 0
	for i := 0; i < str.NumFields(); i++ {
		ft := str.Field(i).Type()
		n := len(e.layout(ft))
		f := vals[at : at+n]
		at += n
		tag := reflect.StructTag(str.Tag(i)).Get("json")
		if str.Field(i).Anonymous() {
			ret(st, nil)
			return
		}
		if !str.Field(i).Exported() || tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if name == "" {
			name = str.Field(i).Name()
		}
		if seen[name] {
			ret(st, nil)
			return
		}
		seen[name] = true
		empty := e.c.False
		known := true
		if opts != "" {
			known = opts == "omitempty"
			switch u := ft.Underlying().(type) {
			case *types.Slice:
				empty = e.c.Eq(f[2], e.c.Int(0))
			case *types.Interface:
				empty = e.c.Eq(f[0], e.c.Nil())
			case *types.Pointer:
				empty = e.c.Eq(f[0], e.c.Int(0))
			case *types.Basic:
				switch {
				case u.Info()&types.IsString != 0:
					empty = e.c.Eq(f[0], e.c.Str(""))
				case u.Info()&types.IsBoolean != 0:
					empty = e.c.Not(f[0])
				case u.Info()&types.IsInteger != 0:
					empty = e.c.Eq(f[0], e.c.Int(0))
				default:
					known = false
				}
			default:
				known = false
			}
		}
		if !known {
			continue
		}
		st.assume(e, e.c.Eq(e.c.App("p.json.has", "Bool", s, e.c.Str(name)), e.c.Not(empty)))
		j := e.jsonVal(st, s, name, ft)
		if sl, ok := ft.Underlying().(*types.Slice); ok && !isByteSlice(ft) {
			st.assume(e, e.c.Imp(e.c.Not(empty), e.c.Eq(j[2], f[2])))
			in := e.c.And(e.c.Le(e.c.Int(0), k), e.c.Lt(k, f[2]))
			a := e.load(st, eaTerm(e, j[0], e.c.Add(j[1], k)), sl.Elem())
			b := e.load(st, eaTerm(e, f[0], e.c.Add(f[1], k)), sl.Elem())
			for q := range a {
				st.assume(e, e.c.Imp(in, e.c.Eq(a[q], b[q])))
			}
			continue
		} else if ok {
			continue // base64
		}
		for q := range j {
			st.assume(e, e.c.Imp(e.c.Not(empty), e.c.Eq(j[q], f[q])))
		}
	}
	for _, name := range jsonFields {
		if !seen[name] {
			st.assume(e, e.c.Not(e.c.App("p.json.has", "Bool", s, e.c.Str(name))))
		}
	}
	ret(st, nil)
}

// flatArgs unwraps the boxed elements of a variadic argument.
func (e *Engine) flatArgs(st *State, v Val) Val {
	et := types.NewSlice(types.NewInterfaceType(nil, nil))
	var r Val
	if v[2].op != "int" {
		return v
	}
	for i := int64(0); i < v[2].ival.Int64(); i++ {
		x := e.load(st, eaTerm(e, v[0], e.c.Add(v[1], e.c.Int(i))), et.Elem())[0]
		if x.op == "box" {
			if t := e.boxT[x.name]; t != nil && isByteSlice(t) {
				r = append(r, e.bytesOf(st, Val(x.args)))
			} else {
				r = append(r, x.args...)
			}
		} else {
			r = append(r, x)
		}
	}
	return r
}

func (e *Engine) gvKey(k *Term) []*Term { return []*Term{k} }

func (e *Engine) gvGet(st *State, name string, key *Term, t types.Type) Val {
	var v Val
	for i, s := range e.layout(t) {
		n := leafName("gv:"+name, i)
		k := []*Term{key}
		e.compOf(n, s, k)
		v = append(v, e.readComp(st, n, k, s))
	}
	return v
}

func (e *Engine) gvSet(st *State, name string, key *Term, v Val) {
	for i := range v {
		n := leafName("gv:"+name, i)
		e.compOf(n, v[i].sort, []*Term{key})
		e.writeComp(st, n, []*Term{key}, v[i])
	}
}

// join runs the goroutines that were put off.
func (e *Engine) join(st *State, pos token.Pos, ret func(*State, Val)) {
	if len(st.pending) == 0 {
		ret(st, nil)
		return
	}
	p := st.pending[0]
	st.pending = append([]*Frame{}, st.pending[1:]...)
	frames, locks := st.frames, st.locks
	s := st.clone()
	s.frames = nil
	s.locks = map[*Term]*lockInfo{}
	s.flags["blocked"] = false
	s.note("goroutine runs late")
	outs := e.runChild(s, p.defers[0], pos)
	n := 0
	for _, o := range outs {
		n++
		o.ret = false
		o.frames = make([]*Frame, len(frames))
		for k, f := range frames {
			o.frames[k] = f.clone()
		}
		o.locks = map[*Term]*lockInfo{}
		for k, v := range locks {
			x := *v
			o.locks[k] = &x
		}
		e.join(o, pos, ret)
	}
	if n == 0 {
		e.join(st, pos, ret)
	}
}

// ---------- obligations ----------

type Obl struct {
	Label  string         `json:"obligation"`
	Paths  int            `json:"paths"`
	Proved int            `json:"proved"`
	Failed int            `json:"failed"`
	Answer string         `json:"answer,omitempty"`
	Trace  []string       `json:"trace,omitempty"`
	Detail string         `json:"detail,omitempty"`
	By     map[string]int `json:"by,omitempty"`
}

func (e *Engine) obl(label string) *Obl {
	o := e.obls[label]
	if o == nil {
		o = &Obl{Label: label, By: map[string]int{}}
		e.obls[label] = o
	}
	return o
}

func (e *Engine) check(st *State, label string, cond *Term, pos token.Pos) {
	if e.dry > 0 || e.noSolve {
		st.assume(e, cond)
		return
	}
	o := e.obl(label)
	o.Paths++
	e.stats.Vcs++
	k := st.known(e, cond)
	by, ans := e.s.Prove(st.facts, k, e.proveTO)
	if by != "" {
		o.Proved++
		o.By[by]++
		e.stats.Discharged++
		st.assume(e, cond)
		return
	}
	// an infeasible path proves everything
	if r := e.s.Check(st.facts, nil, e.proveTO); r == "unsat" {
		o.Proved++
		e.stats.Discharged++
		st.dead = true
		return
	}
	e.violate(st, label, cond, ans)
	st.assume(e, cond)
}

func (e *Engine) violate(st *State, label string, cond *Term, why string) {
	if e.dry > 0 || e.noSolve {
		return
	}
	o := e.obl(label)
	if why != "sat" && why != "unknown" {
		o.Paths++
		e.stats.Vcs++
	}
	o.Failed++
	if o.Trace == nil {
		o.Answer = why
		o.Trace = st.traceList()
		o.Detail = cond.String()
		if len(o.Detail) > 2000 {
			o.Detail = o.Detail[:2000]
		}
		if e.debug > 0 {
			e.dbg("FAILED %s (%s): %s\n   %s", label, why, o.Detail, strings.Join(o.Trace, "\n   "))
			if e.debug > 2 {
				for _, f := range st.facts {
					e.dbg("   fact %s", f)
				}
			}
		}
	}
}

func (e *Engine) cover(st *State, label string) {
	if e.dry > 0 || e.noSolve || e.covers[label] == "reached" {
		return
	}
	r := e.s.Check(st.facts, nil, e.proveTO)
	if r == "sat" || r == "unknown" && !e.strictCover {
		e.covers[label] = "reached"
	} else if e.covers[label] == "" {
		e.covers[label] = r
	}
}

// ---------- locks and guarded data ----------

func (e *Engine) yield(st *State, then func(st *State)) {
	if e.rely == nil || e.inside(st, e.rely) {
		then(st)
		return
	}
	for _, f := range st.frames {
		if strings.HasPrefix(f.fn.Name(), "on_") {
			then(st)
			return
		}
	}
	e.enter(st, e.rely, nil, nil, false, func(s2 *State, v Val) { then(s2) })
}

// lockName yields "T.f" for the lock at pointer p.
func lockName(p *Term) (string, *Term) {
	if p.op == "app" && strings.HasPrefix(p.name, "fa.") {
		return p.name[3:], p.args[0]
	}
	if p.op == "glob" {
		return p.name, p
	}
	return "", nil
}

func (e *Engine) lock(st *State, p *Term, mode byte, pos token.Pos, ret func(*State, Val)) {
	name, owner := lockName(p)
	e.locksSeen[name] = true
	if li := st.locks[p]; li != nil && !(li.mode == 'r' && mode == 'r') {
		e.violateLock(st, "no-self-deadlock", fmt.Sprintf("%s: %s locked twice", e.pos(pos), name))
		st.dead = true
		return
	}
	e.yield(st, func(st *State) {
		if li := st.locks[p]; li != nil {
			li.n++
		} else {
			hs := make(map[string]*layer, len(st.heap))
			st.locks[p] = &lockInfo{mode: mode, n: 1, id: e.nextLock()}
			// other threads may have changed the guarded data
			if owner != nil && (rootAlloc(owner) == nil || st.escaped[rootAlloc(owner)]) && st.flags["interfere"] {
				for _, g := range e.guarded[name] {
					for _, cn := range sortedKeys(e.comps) {
						if cn == g || strings.HasPrefix(cn, g+"#") {
							cp := e.comps[cn]
							e.writeComp(st, cn, []*Term{owner}, e.c.Fresh("shared."+cn, cp.sort))
						}
					}
				}
			}
			for k, v := range st.heap {
				hs[k] = v
			}
			st.locks[p].heap = hs
		}
		if h := e.hooks["onlock:"+name]; h != nil && owner != nil {
			e.enter(st, h, []Val{{owner}}, nil, false, func(s2 *State, v Val) { ret(s2, nil) })
			return
		}
		ret(st, nil)
	})
}

func (e *Engine) unlock(st *State, p *Term, mode byte, pos token.Pos, ret func(*State, Val)) {
	name, owner := lockName(p)
	li := st.locks[p]
	if li == nil || li.mode != mode {
		e.violateLock(st, "unlock-of-held-lock", fmt.Sprintf("%s: %s unlocked but not held", e.pos(pos), name))
		st.dead = true
		return
	}
	e.lockOK("unlock-of-held-lock")
	rel := func(st *State) {
		li := st.locks[p]
		li.n--
		if li.n == 0 {
			delete(st.locks, p)
		}
		ret(st, nil)
	}
	if h := e.hooks["onunlock:"+name]; h != nil && owner != nil {
		e.enter(st, h, []Val{{owner}}, nil, false, func(s2 *State, v Val) { rel(s2) })
		return
	}
	rel(st)
}

func (e *Engine) lockOK(label string) {
	if e.lockset && e.dry == 0 && !e.noSolve {
		o := e.obl(label)
		o.Paths++
		o.Proved++
		e.stats.Vcs++
		e.stats.Discharged++
	}
}

func (e *Engine) violateLock(st *State, label, why string) {
	if !e.lockset || e.dry > 0 || e.noSolve {
		return
	}
	if e.s.Check(st.facts, nil, e.proveTO) == "unsat" {
		return
	}
	st.note("%s", why)
	e.violate(st, label, e.c.False, why)
}

func (e *Engine) checkLocksReleased(st *State, where string) {
	if !e.lockset {
		return
	}
	for p := range st.locks {
		n, _ := lockName(p)
		e.violateLock(st, "locks-released", fmt.Sprintf("%s ends with %s held", where, n))
		return
	}
	e.lockOK("locks-released")
}

// inContract tells whether the code being executed is specification, not code of the repository.
func (e *Engine) inContract(st *State) bool {
	if len(st.frames) == 0 {
		return true
	}
	return e.overlayFn(st.top().fn)
}

func (e *Engine) overlayFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return strings.HasPrefix(filepath.Base(e.fset.Position(fn.Pos()).Filename), "zz_gv_")
}

// guardOf finds the lock that guards a component.
func (e *Engine) guardOf(name string) string {
	for l, fs := range e.guarded {
		for _, f := range fs {
			if name == f {
				return l
			}
		}
	}
	return ""
}

func (e *Engine) onAccess(st *State, name string, key []*Term, write bool) {
	if e.dry == 0 && !e.noSolve && e.atomics[name] && !e.inContract(st) {
		r := rootAlloc(key[0])
		ok := e.inAtomic > 0 || r != nil && !st.escaped[r]
		for p := range st.locks {
			if _, o := lockName(p); o == key[0] {
				ok = true // serialized by a lock of the same object
			}
		}
		label := "atomic-access:" + strings.TrimPrefix(name, "f:")
		if !ok {
			st.note("plain access to %s in %s", name, fnName(st.top().fn))
			e.violate(st, label, e.c.False, "plain access to a field shared by goroutines")
		} else {
			o := e.obl(label)
			o.Paths++
			o.Proved++
			e.stats.Vcs++
			e.stats.Discharged++
		}
	}
	if !e.lockset || e.dry > 0 || e.noSolve || len(e.guarded) == 0 {
		return
	}
	g := e.guardOf(name)
	if g == "" || e.inContract(st) {
		return
	}
	obj := key[0]
	if r := rootAlloc(obj); r != nil && !st.escaped[r] {
		return // not yet shared
	}
	e.needLock(st, g, e.lockPtr(g, obj), write, name)
}

func (e *Engine) lockPtr(g string, obj *Term) *Term {
	if obj.op == "glob" {
		for gl, t := range e.globs {
			if t.name == g {
				_ = gl
				return t
			}
		}
	}
	return e.c.App("fa."+g, "Int", obj)
}

func (e *Engine) needLock(st *State, g string, p *Term, write bool, what string) {
	li := st.locks[p]
	ok := li != nil && (li.mode == 'w' || !write)
	if ok {
		e.lockOK("guarded:" + strings.TrimPrefix(what, "f:"))
		return
	}
	w := "read"
	if write {
		w = "written"
	}
	fr := st.top().fn.String()
	e.violateLock(st, "guarded:"+strings.TrimPrefix(what, "f:"), fmt.Sprintf("%s %s without %s in %s", what, w, g, shortName(fr)))
}

// onLoaded records that a reference came out of a guarded field.
func (e *Engine) onLoaded(st *State, name string, key []*Term, v Val) {
	if !e.lockset || name == "" {
		return
	}
	g := e.guardOf(name)
	if g == "" || len(v) == 0 || v[0].sort != "Int" {
		return
	}
	if r := rootAlloc(key[0]); r != nil && !st.escaped[r] {
		return
	}
	p := e.lockPtr(g, key[0])
	in := loadedIn{field: name}
	if li := st.locks[p]; li != nil && li.mode == 'w' {
		in.id = li.id
	}
	st.owner[v[0]] = p
	st.ownerIn[v[0]] = in
}

func (e *Engine) nextLock() int {
	e.lockSeq++
	return e.lockSeq
}

// onReplaced: a guarded field gets another reference. What it held since the lock was acquired belongs to this goroutine now.
func (e *Engine) onReplaced(st *State, name string, key []*Term, v Val) {
	if !e.lockset || len(v) == 0 {
		return
	}
	g := e.guardOf(name)
	if g == "" || !(v[0].isInt(0) || rootAlloc(v[0]) != nil) {
		return
	}
	p := e.lockPtr(g, key[0])
	li := st.locks[p]
	if li == nil || li.mode != 'w' {
		return
	}
	for m, o := range st.owner {
		if in := st.ownerIn[m]; o == p && m != v[0] && in.field == name && in.id == li.id && e.readComp(st, leafName(name, 0), key, "Int") == m {
			delete(st.owner, m)
			delete(st.ownerIn, m)
		}
	}
}

func (e *Engine) onMapAccess(st *State, m *Term, t types.Type, write bool, pos token.Pos) {
	e.noteMapRef(m)
	if !e.lockset || e.dry > 0 || e.noSolve {
		return
	}
	p := st.owner[m]
	if p == nil {
		return
	}
	if e.inContract(st) {
		return
	}
	g, _ := lockName(p)
	e.needLock(st, g, p, write, "content guarded by "+g)
}

func (e *Engine) noteMapRef(m *Term) {
	for _, x := range e.mapRefs {
		if x == m {
			return
		}
	}
	if len(e.mapRefs) < 40 {
		e.mapRefs = append(e.mapRefs, m)
	}
}
