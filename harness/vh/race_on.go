//go:build race

package vh

const raceBuild = true
