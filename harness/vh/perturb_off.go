//go:build !perturb

package vh

const perturbBuild = false

func SetPerturb(level int) {}

func PerturbPoints() int64 { return 0 }
