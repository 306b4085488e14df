package signalr

import "sync"

// Intrinsics of the verifier: declarations only, govc interprets them.

func gvAny[T any]() (t T)                          { return }
func gvRigid[T any]() (t T)                        { return }
func gvAssume(bool)                                {}
func gvCheck(label string, c bool)                 {}
func gvCover(label string)                         {}
func gvFork(n int) int                             { return 0 }
func gvGet[V any](name string, key any) (v V)      { return }
func gvSet[V any](name string, key any, v V)       {}
func gvHavoc(comp string)                          {}
func gvImp(a, b bool) bool                         { return !a || b }
func gvAnd(a, b bool) bool                         { return a && b }
func gvHavocSM(m *sync.Map, k any)                 {}
func gvNot(b bool) bool                            { return !b }
func gvOr(a, b bool) bool                          { return a || b }
func gvIff(a, b bool) bool                         { return a == b }
func gvIte[T any](c bool, a, b T) (t T)            { return }
func gvMentions(x any, prefix string) bool         { return false }
func gvPure[T any](name string, args ...any) (t T) { return }
func gvInj[T any](name string, args ...any) (t T)  { return }
func gvKey(args ...any) int                        { return 0 }
func gvJoin()                                      {}
func gvSpawn(mode string)                          {}
func gvFlag(name string, on bool)                  {}
func gvOpen(ch any)                                {}
func gvClosed(ch any) bool                         { return false }
func gvSetClosed(ch any, v bool)                   {}
func gvQueued(ch any) int                          { return 0 }
func gvUnreachable(label string)                   {}
func gvVisited[K any](k K) bool                    { return false }
func gvHeld(lock any) bool                         { return false }
func gvNoLocks(label string)                       {}
func gvAllocated(x any) bool                       { return false }
func gvNow() int                                   { return 0 }
func gvSubstr(s string, i, n int) string           { return "" }
func gvPrefix(s, p string) bool                    { return false }
func gvContains(s, p string) bool                  { return false }
func gvIndex(s, p string) int                      { return 0 }
func gvZeros(n int) string                         { return "" }
func gvSetBytes(dst []byte, s string)              {}
func gvTypeName(x any) int                         { return 0 }
func gvIs[T any](x any) bool                       { return false }
func gvAs[T any](x any) (t T)                      { return }
func gvCall(f func())                              {}
func gvKnownFunc(f any) bool                       { return false }
func gvDead()                                      {}
func gvSame[T any](a, b T) bool                    { return false }
func gvElem[T any](s []T, i int) (t T)             { return }
func gvChar(c byte) string                         { return "" }
func gvLent(owner any, off, n int) []byte          { return nil }
func gvOwned(p []byte) bool                        { return false }
func gvApart[T any](a, b []T) bool                 { return true }
func gvSetLent(owner any, s string)                {}
func gvTag[T any](field string) string             { return "" }
func gvNumFields[T any]() int                      { return 0 }
func gvJSON[T any](s, tag string) (t T)            { return }
func gvJSONDecode(s string, dst any, ok bool)      {}
func gvInit()                                      {}
func gvJSONEncode(s string, v any, k int)          {}
func gvPrint(x ...any)                             {}

// gvRoot is the frame every proof task runs in.
func gvRoot() {}
