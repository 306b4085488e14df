package signalr

import (
	"context"
	"reflect"
	"sync"
	"time"

	"github.com/go-kit/log"
)

//govc:model github.com/go-kit/log.WithPrefix|github.com/go-kit/log.With
func gvLogWith(l log.Logger, keyvals ...interface{}) log.Logger {
	r := gvAny[log.Logger]()
	gvAssume(r != nil)
	return r
}

// Contracts of library functions, written as Go. They are assumptions of every proof that uses them.

// Range visits entries that are in the map at the moment of the visit, none twice; an entry that
// was in the map all the time is visited unless f returned false.
//
//govc:model (*sync.Map).Range
func gvSyncMapRange(m *sync.Map, f func(key, value any) bool) {
	it := new(int)
	k0 := gvGet[any]("rigid.key", 0)
	_, was := m.Load(k0)
	for gvAny[bool]() {
		k := gvAny[any]()
		v, ok := m.Load(k)
		gvAssume(ok)
		gvAssume(!gvGet[bool]("sm.visited", gvKey(it, k)))
		gvSet("sm.visited", gvKey(it, k), true)
		if !f(k, v) {
			return
		}
	}
	_, is := m.Load(k0)
	gvAssume(gvImp(gvAnd(was, is), gvGet[bool]("sm.visited", gvKey(it, k0))))
}

// ---- context ----
// The ghost state ctx.cancelled(c) tells that c has been seen cancelled; it never goes back. Anybody may cancel
// any context at any time, so Err and Done answer nondeterministically until then.

//govc:model (context.Context).Done
func gvCtxDone(c context.Context) <-chan struct{} {
	return gvInj[<-chan struct{}]("ctxdone", c)
}

//govc:model (context.Context).Err
func gvCtxErr(c context.Context) error {
	if !gvGet[bool]("ctx.cancelled", c) {
		if gvFork(2) == 0 {
			return nil
		}
		gvSet("ctx.cancelled", c, true)
	}
	err := gvAny[error]()
	gvAssume(err != nil)
	return err
}

//govc:model context.WithCancel
func gvCtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := gvInj[context.Context]("newctx", new(int))
	gvAssume(c != nil)
	gvSet("ctx.parent", c, parent)
	return c, func() { gvSet("ctx.cancelled", c, true) }
}

//govc:model context.WithTimeout
func gvCtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := gvInj[context.Context]("newctx", new(int))
	gvAssume(c != nil)
	gvSet("ctx.parent", c, parent)
	gvSet("ctx.timeout", c, d)
	return c, func() { gvSet("ctx.cancelled", c, true) }
}

//govc:model context.Background|context.TODO
func gvCtxBackground() context.Context {
	c := gvInj[context.Context]("ctxbackground", 0)
	gvAssume(c != nil)
	return c
}

// ---- reflect ----

//govc:model (reflect.Value).Type
func gvRvType(v reflect.Value) reflect.Type {
	t := gvPure[reflect.Type]("rv.type", v)
	gvAssume(t != nil)
	gvAssume(t.Kind() == v.Kind())
	return t
}

//govc:model (reflect.Type).In
func gvTypeIn(t reflect.Type, i int) reflect.Type {
	r := gvPure[reflect.Type]("rt.in", t, i)
	gvAssume(r != nil)
	return r
}

//govc:model (reflect.Type).Elem
func gvTypeElem(t reflect.Type) reflect.Type {
	r := gvPure[reflect.Type]("rt.elem", t)
	gvAssume(r != nil)
	return r
}
