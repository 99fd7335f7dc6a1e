//go:build perturb

package vh

import "github.com/donnie4w/gofer/verifperturb"

const perturbBuild = true

// SetPerturb sets how hard the instrumented gofer code is perturbed (0 off, 1 yields, 2 and 3 also sleeps).
func SetPerturb(level int) { verifperturb.Level.Store(int32(level)) }

// PerturbPoints returns how often an injected point ran.
func PerturbPoints() int64 { return verifperturb.Hits.Load() }
