// Package simhook is called before every statement of the code under test.
package simhook

import (
	"runtime"
)

// MaxSite bounds the instrumented statement sites.
const MaxSite = 1 << 15

var (
	// Steps counts statements executed by the code under test.
	Steps uint64
	// Limit is the step budget; exceeding it panics with NoProgress.
	Limit uint64 = 1 << 62
	// Hit records which sites were reached.
	Hit [MaxSite]bool
	// YieldOneIn makes one in N statements a scheduling point (0: never).
	YieldOneIn uint32
	// Yields counts the context switches taken at statements.
	Yields uint64
)

// NoProgress is the panic value when the step budget is exhausted.
type NoProgress struct{ Steps uint64 }

func (NoProgress) Error() string { return "step budget exhausted: no progress" }

// Y is the hook.
//
//go:norace
func Y(site int) {
	Steps++
	if Steps > Limit {
		panic(NoProgress{Steps})
	}
	Hit[site&(MaxSite-1)] = true
	if YieldOneIn != 0 && runtime.SimChoose(YieldOneIn) == 1%YieldOneIn {
		Yields++
		runtime.Gosched()
	}
}
