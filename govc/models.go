package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(st *State, v Val))

var builtinModels map[string]model

// pureNames are library functions without effects whose result depends on their arguments only.
var pureNames = []string{
	"strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.Title",
	"(time.Duration).String", "(time.Duration).Seconds", "(time.Duration).Milliseconds", "(time.Time).String", "(time.Time).Format", "(time.Time).Unix", "(time.Time).UnixNano",
	"(reflect.Type).Kind", "(reflect.Type).Elem", "(reflect.Type).ChanDir", "(reflect.Type).NumIn", "(reflect.Type).NumOut", "(reflect.Type).In", "(reflect.Type).Out",
	"(reflect.Type).NumMethod", "(reflect.Type).Name", "(reflect.Type).String", "(reflect.Type).Method", "(reflect.Type).IsVariadic",
	"(reflect.Type).AssignableTo", "(reflect.Type).ConvertibleTo", "(reflect.Type).Implements", "(reflect.Value).Method", "(reflect.Value).NumMethod", "(reflect.Value).MethodByName",
	"(reflect.Value).Kind", "(reflect.Value).Type", "(reflect.Value).IsValid", "(reflect.Value).IsNil", "(reflect.Value).String", "(reflect.Value).Len", "(reflect.Value).NumField", "(reflect.Value).Index",
	"reflect.ChanOf", "reflect.PtrTo", "reflect.PointerTo", "(reflect.Value).CanInterface", "(reflect.Value).CanAddr", "(reflect.Value).Convert",
	"(*net/url.URL).String", "net/url.Parse", "(net/url.Values).Get", "(*net/url.URL).Query", "(net/http.Header).Get", "net/http.StatusText", "(*net/url.URL).ResolveReference",
	"encoding/base64.StdEncoding", "path.Join", "(reflect.Kind).String", "(net/url.Values).Encode", "net/url.QueryEscape",
	"(context.Context).Value", "(context.Context).Deadline",
	"strings.Repeat", "strings.Join", "strings.Index", "strings.LastIndex", "strings.Fields", "strings.ReplaceAll", "strings.Replace",
	"unicode.IsUpper", "unicode.IsLower", "unicode.ToLower", "unicode.ToUpper",
	"(TransferMode).String", "(*net/url.URL).Hostname", "(*net/url.URL).Port",
}

func simple(f func(e *Engine, st *State, a []Val) Val) model {
	return func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
		v := f(e, st, a)
		if !st.dead {
			ret(st, v)
		}
	}
}

func noop(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
	if fn == nil {
		ret(st, nil)
		return
	}
	ret(st, e.zero(fn.Signature.Results()))
}

func (e *Engine) now(st *State) *Term {
	c := e.c
	k := []*Term{c.Int(1)}
	e.compOf("clock", "Int", k)
	t0 := e.readComp(st, "clock", k, "Int")
	t := c.Fresh("now", "Int")
	st.assume(e, c.Le(t0, t))
	st.assume(e, c.Le(c.Int(1), t))
	e.writeComp(st, "clock", k, t)
	return t
}

func (e *Engine) errNew(st *State, kind string, text *Term) *Term {
	c := e.c
	r := c.Alloc("error")
	b := c.Box(kind, r)
	if text != nil {
		st.assume(e, c.Eq(c.App("p.fmtv", "String", b), text))
	}
	return b
}

// sprintf models formatting as an injective-free pure function of its operands.
func (e *Engine) sprintf(st *State, f *Term, args Val) *Term {
	c := e.c
	if f.op == "str" {
		if (f.name == "%v" || f.name == "%s" || f.name == "%d") && len(args) == 1 {
			switch args[0].sort {
			case "String":
				return args[0]
			case "Int":
				return c.App("itoa", "String", args[0])
			case "Any":
				return c.App("p.fmtv", "String", args[0])
			}
		}
		if t := e.sprintfConcat(f.name, args); t != nil {
			return t
		}
		// literal characters of the format are part of the result
		lit := 0
		for i := 0; i < len(f.name); i++ {
			if f.name[i] == '%' {
				i++
				for i < len(f.name) && !(f.name[i] >= 'a' && f.name[i] <= 'z' || f.name[i] >= 'A' && f.name[i] <= 'Z' || f.name[i] == '%') {
					i++
				}
				continue
			}
			lit++
		}
		t := c.App("p.fmt.Sprintf", "String", append(Val{f}, args...)...)
		st.assume(e, c.Le(c.Int(int64(lit)), c.Len(t)))
		return t
	}
	return c.App("p.fmt.Sprintf", "String", append(Val{f}, args...)...)
}

// sprintfConcat is the result of a format which only inserts strings.
func (e *Engine) sprintfConcat(f string, args Val) *Term {
	parts := strings.Split(f, "%")
	if len(parts) != len(args)+1 {
		return nil
	}
	t := e.c.Str(parts[0])
	for i, a := range args {
		p := parts[i+1]
		if p == "" || p[0] != 'v' && p[0] != 's' || a.sort != "String" {
			return nil
		}
		t = e.c.Concat(t, a)
		if p[1:] != "" {
			t = e.c.Concat(t, e.c.Str(p[1:]))
		}
	}
	return t
}

func (e *Engine) varargs(st *State, v Val) Val {
	if v[0].isInt(0) {
		return nil
	}
	if v[2].op != "int" {
		return Val{v[0], v[1], v[2]}
	}
	var r Val
	ifc := types.NewInterfaceType(nil, nil)
	for i := int64(0); i < v[2].ival.Int64(); i++ {
		x := e.load(st, eaTerm(e, v[0], e.c.Add(v[1], e.c.Int(i))), ifc)[0]
		if x.op == "box" && len(x.args) == 1 && (x.args[0].sort == "String" || x.args[0].sort == "Bool") {
			r = append(r, x.args[0])
		} else if x.op == "box" && len(x.args) == 1 && x.args[0].sort == "Int" && isIntType(e.boxT[x.name]) {
			r = append(r, x.args[0])
		} else if x.op == "box" && e.boxT[x.name] != nil && isByteSlice(e.boxT[x.name]) {
			r = append(r, e.bytesOf(st, Val(x.args)))
		} else {
			r = append(r, x)
		}
	}
	return r
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) atomicCell(st *State, p *Term, t types.Type) (func() Val, func(v Val)) {
	return func() Val { e.inAtomic++; v := e.load(st, p, t); e.inAtomic--; return v },
		func(v Val) { e.inAtomic++; e.store(st, p, t, v); e.inAtomic-- }
}

func atomicFn(op string, elem func(fn *ssa.Function) types.Type) model {
	return func(e *Engine, st0 *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
		e.yield(st0, func(st *State) {
			t := elem(fn)
			ld, sr := e.atomicCell(st, a[0][0], t)
			switch op {
			case "add":
				v := Val{e.c.Add(ld()[0], a[1][0])}
				sr(v)
				ret(st, v)
			case "load":
				ret(st, ld())
			case "store":
				sr(a[1])
				ret(st, nil)
			case "swap":
				v := ld()
				sr(a[1])
				ret(st, v)
			case "cas":
				cur := ld()
				eq := e.c.True
				for i := range cur {
					eq = e.c.And(eq, e.c.Eq(cur[i], a[1][i]))
				}
				e.branch(st, eq, func(s2 *State, yes bool) {
					if yes {
						_, sr2 := e.atomicCell(s2, a[0][0], t)
						sr2(a[2])
					}
					ret(s2, Val{e.c.Bool(yes)})
				})
			}
		})
	}
}

func ptrElem(fn *ssa.Function) types.Type {
	return fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
}

// sync.Map
func (e *Engine) smRead(st *State, m, k *Term) (*Term, *Term) {
	key := []*Term{m, k}
	e.compOf("sm.dom", "Bool", key)
	e.compOf("sm.val", "Any", key)
	return e.readComp(st, "sm.dom", key, "Bool"), e.readComp(st, "sm.val", key, "Any")
}

func (e *Engine) smWrite(st *State, m, k *Term, dom, val *Term) {
	key := []*Term{m, k}
	e.smRead(st, m, k)
	e.writeComp(st, "sm.dom", key, dom)
	e.writeComp(st, "sm.val", key, val)
	if r := rootAllocAny(val); r != nil {
		e.markEscaped(st, r)
	}
}

func (e *Engine) smHook(st *State, op string, m, k, v *Term, then func(*State)) {
	h := e.hooks["on"+op]
	if h == nil || e.inside(st, h) || op != "smload" && e.inContract(st) {
		then(st) // what contracts do to describe the environment is not checked
		return
	}
	e.enter(st, h, []Val{{m}, {k}, {v}}, nil, false, func(s2 *State, _ Val) { then(s2) })
}

func init() {
	str := func(e *Engine, s string) *Term { return e.c.Str(s) }
	_ = str
	itoa := func(i int) model {
		return simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.App("itoa", "String", a[i][0])} })
	}
	fresh := func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
		ret(st, e.freshVal(st, fnName(fn), fn.Signature.Results()))
	}
	builtinModels = map[string]model{
		"(*sync.Mutex).Lock": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.lock(st, a[0][0], 'w', pos, ret)
		},
		"(*sync.Mutex).Unlock": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.unlock(st, a[0][0], 'w', pos, ret)
		},
		"(*sync.RWMutex).Lock": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.lock(st, a[0][0], 'w', pos, ret)
		},
		"(*sync.RWMutex).Unlock": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.unlock(st, a[0][0], 'w', pos, ret)
		},
		"(*sync.RWMutex).RLock": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.lock(st, a[0][0], 'r', pos, ret)
		},
		"(*sync.RWMutex).RUnlock": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.unlock(st, a[0][0], 'r', pos, ret)
		},
		"(*sync.WaitGroup).Add":  noop,
		"(*sync.WaitGroup).Done": noop,
		"(*sync.WaitGroup).Wait": noop,
		"(*sync.Once).Do": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			k := []*Term{a[0][0]}
			e.compOf("once", "Bool", k)
			done := e.readComp(st, "once", k, "Bool")
			e.branch(st, done, func(s2 *State, yes bool) {
				if yes {
					ret(s2, nil)
					return
				}
				e.writeComp(s2, "once", k, e.c.True)
				fv := e.fnTab[a[1][0]]
				if fv == nil || fv.fn == nil {
					ret(s2, nil)
					return
				}
				e.callFn(s2, fv.fn, nil, fv.bind, pos, false, func(s3 *State, _ Val) { ret(s3, nil) })
			})
		},
		"(*sync.Map).Load": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.yield(st, func(st *State) {
				d, v := e.smRead(st, a[0][0], a[1][0])
				e.branch(st, d, func(s2 *State, yes bool) {
					if yes {
						e.smHook(s2, "smload", a[0][0], a[1][0], v, func(s2 *State) { ret(s2, Val{v, e.c.True}) })
					} else {
						ret(s2, Val{e.c.Nil(), e.c.False})
					}
				})
			})
		},
		"(*sync.Map).Store": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.yield(st, func(st *State) {
				e.smHook(st, "smstore", a[0][0], a[1][0], a[2][0], func(st *State) {
					e.smWrite(st, a[0][0], a[1][0], e.c.True, a[2][0])
					ret(st, nil)
				})
			})
		},
		"(*sync.Map).Delete": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.yield(st, func(st *State) {
				e.smHook(st, "smdelete", a[0][0], a[1][0], e.c.Nil(), func(st *State) {
					e.smWrite(st, a[0][0], a[1][0], e.c.False, e.c.Nil())
					ret(st, nil)
				})
			})
		},
		"(*sync.Map).LoadOrStore": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.yield(st, func(st *State) {
				d, v := e.smRead(st, a[0][0], a[1][0])
				e.branch(st, d, func(s2 *State, yes bool) {
					if yes {
						e.smHook(s2, "smload", a[0][0], a[1][0], v, func(s2 *State) { ret(s2, Val{v, e.c.True}) })
						return
					}
					e.smHook(s2, "smstore", a[0][0], a[1][0], a[2][0], func(s2 *State) {
						e.smWrite(s2, a[0][0], a[1][0], e.c.True, a[2][0])
						ret(s2, Val{a[2][0], e.c.False})
					})
				})
			})
		},
		"(*sync.Map).LoadAndDelete": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.yield(st, func(st *State) {
				d, v := e.smRead(st, a[0][0], a[1][0])
				e.smHook(st, "smdelete", a[0][0], a[1][0], e.c.Nil(), func(st *State) {
					e.branch(st, d, func(s2 *State, yes bool) {
						e.smWrite(s2, a[0][0], a[1][0], e.c.False, e.c.Nil())
						if !yes {
							ret(s2, Val{e.c.Nil(), e.c.False})
							return
						}
						e.smHook(s2, "smload", a[0][0], a[1][0], v, func(s2 *State) { ret(s2, Val{v, e.c.True}) })
					})
				})
			})
		},
		"fmt.Sprint": simple(func(e *Engine, st *State, a []Val) Val {
			args := e.varargs(st, a[0])
			if len(args) == 1 {
				return Val{e.sprintf(st, e.c.Str("%v"), args)}
			}
			return Val{e.c.App("p.fmt.Sprint", "String", args...)}
		}),
		"fmt.Sprintf": simple(func(e *Engine, st *State, a []Val) Val { return Val{e.sprintf(st, a[0][0], e.varargs(st, a[1]))} }),
		"fmt.Sprintln": simple(func(e *Engine, st *State, a []Val) Val {
			return Val{e.c.App("p.fmt.Sprintln", "String", e.varargs(st, a[0])...)}
		}),
		"fmt.Errorf": simple(func(e *Engine, st *State, a []Val) Val {
			args := e.varargs(st, a[1])
			b := e.errNew(st, "*fmt.wrapError", e.sprintf(st, a[0][0], args))
			if a[0][0].op == "str" && strings.Contains(a[0][0].name, "%w") {
				for _, x := range args {
					if x.sort == "Any" {
						e.compOf("err.wraps", "Any", []*Term{b})
						e.writeComp(st, "err.wraps", []*Term{b}, x)
					}
				}
			}
			return Val{b}
		}),
		"errors.New": simple(func(e *Engine, st *State, a []Val) Val { return Val{e.errNew(st, "*errors.errorString", a[0][0])} }),
		"(error).Error": simple(func(e *Engine, st *State, a []Val) Val {
			return Val{e.c.App("p.fmtv", "String", a[0][0])}
		}),
		"errors.Is": simple(func(e *Engine, st *State, a []Val) Val {
			c := e.c
			x, t := a[0][0], a[1][0]
			r := c.False
			for d := 0; d < 5; d++ {
				r = c.Or(r, c.Eq(x, t))
				if x.op == "box" && x.name == "*fmt.wrapError" {
					e.compOf("err.wraps", "Any", []*Term{x})
					x = e.readComp(st, "err.wraps", []*Term{x}, "Any")
					continue
				}
				if x.op != "box" && x.op != "nilany" {
					r = c.Or(r, c.And(c.Not(c.IsNil(x)), c.App("p.errors.Is", "Bool", x, t)))
				}
				break
			}
			return Val{r}
		}),
		"errors.As":          fresh,
		"strconv.Itoa":       itoa(0),
		"strconv.FormatUint": itoa(0),
		"strconv.FormatInt":  itoa(0),
		"strings.EqualFold": simple(func(e *Engine, st *State, a []Val) Val {
			return Val{e.c.Eq(e.c.App("p.strings.ToLower", "String", a[0][0]), e.c.App("p.strings.ToLower", "String", a[1][0]))}
		}),
		"strings.HasPrefix": simple(func(e *Engine, st *State, a []Val) Val {
			return Val{e.c.S("s.prefixof", "Bool", a[1][0], a[0][0])}
		}),
		"strings.HasSuffix": simple(func(e *Engine, st *State, a []Val) Val {
			return Val{e.c.S("s.suffixof", "Bool", a[1][0], a[0][0])}
		}),
		"strings.Contains": simple(func(e *Engine, st *State, a []Val) Val {
			return Val{e.c.S("s.contains", "Bool", a[0][0], a[1][0])}
		}),
		"time.Now":           simple(func(e *Engine, st *State, a []Val) Val { return Val{e.now(st)} }),
		"time.Since":         simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.Sub(e.now(st), a[0][0])} }),
		"time.Until":         simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.Sub(a[0][0], e.now(st))} }),
		"(time.Time).Sub":    simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.Sub(a[0][0], a[1][0])} }),
		"(time.Time).Add":    simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.Add(a[0][0], a[1][0])} }),
		"(time.Time).After":  simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.Lt(a[1][0], a[0][0])} }),
		"(time.Time).Before": simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.Lt(a[0][0], a[1][0])} }),
		"(time.Time).Equal":  simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.Eq(a[0][0], a[1][0])} }),
		"(time.Time).Compare": simple(func(e *Engine, st *State, a []Val) Val {
			c := e.c
			return Val{c.Ite(c.Lt(a[0][0], a[1][0]), c.Int(-1), c.Ite(c.Eq(a[0][0], a[1][0]), c.Int(0), c.Int(1)))}
		}),
		"(time.Time).IsZero": simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.Eq(a[0][0], e.c.Int(0))} }),
		"time.After": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			ret(st, Val{e.c.App("inj.timeafter", "Int", a[0][0], e.c.Fresh("timer", "Int"))})
		},
		"time.Sleep": noop,
		"time.NewTicker": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.newTicker(st, fn, a, pos, ret)
		},
		"time.NewTimer": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.newTicker(st, fn, a, pos, ret)
		},
		"(*time.Ticker).Reset": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.gvSet(st, "ticker.d", e.c.Box("*time.Ticker", a[0][0]), a[1])
			ret(st, nil)
		},
		"(*time.Ticker).Stop": noop,
		"(*time.Timer).Stop":  fresh,
		"(*time.Timer).Reset": func(e *Engine, st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
			e.gvSet(st, "ticker.d", e.c.Box("*time.Timer", a[0][0]), a[1])
			ret(st, Val{e.c.Fresh("active", "Bool")})
		},
		"reflect.TypeOf": simple(func(e *Engine, st *State, a []Val) Val {
			c := e.c
			t := c.App("p.reflect.TypeOf", "Any", c.Typ(a[0][0]))
			st.assume(e, c.Eq(c.IsNil(t), c.IsNil(a[0][0])))
			return Val{t}
		}),
		"reflect.ValueOf": simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.App("inj.rvOf", "Int", a[0][0])} }),
		"reflect.New": simple(func(e *Engine, st *State, a []Val) Val {
			return Val{e.c.App("inj.rvNew", "Int", a[0][0], e.c.Alloc("reflect.New"))}
		}),
		"reflect.MakeChan": simple(func(e *Engine, st *State, a []Val) Val {
			r := e.c.App("inj.rvMakeChan", "Int", a[0][0], a[1][0], e.c.Alloc("reflect.MakeChan"))
			return Val{r}
		}),
		"(reflect.Value).Interface": simple(func(e *Engine, st *State, a []Val) Val {
			if a[0][0].op == "app" && a[0][0].name == "inj.rvOf" {
				return Val{a[0][0].args[0]}
			}
			return Val{e.c.App("p.rvIface", "Any", a[0][0])}
		}),
		"(reflect.Value).Elem":               simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.App("inj.rvElem", "Int", a[0][0])} }),
		"(StructuredLogger).Log":             simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.Nil()} }),
		"(github.com/go-kit/log.Logger).Log": simple(func(e *Engine, st *State, a []Val) Val { return Val{e.c.Nil()} }),
		"runtime/debug.Stack": simple(func(e *Engine, st *State, a []Val) Val {
			return e.newBytes(st, "stack", e.c.Fresh("debug.Stack", "String"))
		}),
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		builtinModels["sync/atomic.Add"+t] = atomicFn("add", ptrElem)
		builtinModels["sync/atomic.Load"+t] = atomicFn("load", ptrElem)
		builtinModels["sync/atomic.Store"+t] = atomicFn("store", ptrElem)
		builtinModels["sync/atomic.Swap"+t] = atomicFn("swap", ptrElem)
		builtinModels["sync/atomic.CompareAndSwap"+t] = atomicFn("cas", ptrElem)
		it := types.Typ[types.Int64]
		tt := func(*ssa.Function) types.Type { return it }
		builtinModels["(*sync/atomic."+t+").Add"] = atomicFn("add", tt)
		builtinModels["(*sync/atomic."+t+").Load"] = atomicFn("load", tt)
		builtinModels["(*sync/atomic."+t+").Store"] = atomicFn("store", tt)
		builtinModels["(*sync/atomic."+t+").Swap"] = atomicFn("swap", tt)
		builtinModels["(*sync/atomic."+t+").CompareAndSwap"] = atomicFn("cas", tt)
	}
	bt := func(*ssa.Function) types.Type { return types.Typ[types.Bool] }
	builtinModels["(*sync/atomic.Bool).Load"] = atomicFn("load", bt)
	builtinModels["(*sync/atomic.Bool).Store"] = atomicFn("store", bt)
	builtinModels["(*sync/atomic.Bool).Swap"] = atomicFn("swap", bt)
	builtinModels["(*sync/atomic.Bool).CompareAndSwap"] = atomicFn("cas", bt)
}

func (e *Engine) newTicker(st *State, fn *ssa.Function, a []Val, pos token.Pos, ret func(*State, Val)) {
	c := e.c
	rt := fn.Signature.Results().At(0).Type()
	r := c.Alloc("ticker")
	et := rt.Underlying().(*types.Pointer).Elem()
	s := et.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "C" {
			p := faTerm(e, r, et, i)
			n, k := e.compName(p, s.Field(i).Type())
			e.compOf(n, "Int", k)
			e.writeComp(st, n, k, c.App("inj.tickchan", "Int", r))
		}
	}
	e.gvSet(st, "ticker.d", c.Box(typeKey(rt), r), a[0])
	ret(st, Val{r})
}
