// Package sruntime replaces package runtime in the instrumented build: what
// differs from machine to machine and moment to moment is simulated.
package sruntime

import (
	"runtime"

	sim "github.com/adamcolton/parlex/zzsim"
)

type (
	Error    = runtime.Error
	MemStats = runtime.MemStats
	Frame    = runtime.Frame
	Frames   = runtime.Frames
	Func     = runtime.Func

	TypeAssertionError = runtime.TypeAssertionError
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

// NumCPU depends on the machine.
func NumCPU() int        { return sim.Machine(8) }
func GOMAXPROCS(int) int { return sim.Machine(8) }
func NumGoroutine() int  { return sim.NumTasks() }
func Gosched()           { sim.Sync() }
func GC()                { sim.Sync() }

func KeepAlive(x any)          { runtime.KeepAlive(x) }
func SetFinalizer(obj, fn any) {}
func LockOSThread()            {}
func UnlockOSThread()          {}
func Version() string          { return runtime.Version() }
func ReadMemStats(m *MemStats) { *m = MemStats{} }

func Stack(buf []byte, all bool) int      { return 0 }
func Callers(skip int, pc []uintptr) int  { return runtime.Callers(skip+1, pc) }
func CallersFrames(pcs []uintptr) *Frames { return runtime.CallersFrames(pcs) }
func FuncForPC(pc uintptr) *Func          { return runtime.FuncForPC(pc) }
func Caller(skip int) (uintptr, string, int, bool) {
	return runtime.Caller(skip + 1)
}
