//go:build !race

package vh

const raceBuild = false
