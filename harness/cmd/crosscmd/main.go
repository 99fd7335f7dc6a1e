// crosscmd monitors guarantees that cut across the packages: who owns a byte slice, and that objects do
// not influence one another.
package main

import (
	"os"
	"path/filepath"

	"verifharness/vh"
)

func main() {
	vh.Helpers["life"] = lifeHelper
	vh.Main(map[string]func(*vh.Run){"O01": o01, "O02": o02})
}

func scratch(c *vh.Case) string {
	d, err := os.MkdirTemp(c.Tmp, "cross")
	if err != nil {
		panic(err)
	}
	d, err = filepath.EvalSymlinks(d)
	if err != nil {
		panic(err)
	}
	return d
}
