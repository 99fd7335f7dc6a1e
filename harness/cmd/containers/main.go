// containers monitors the hashmap package.
package main

import "verifharness/vh"

func main() {
	vh.Main(map[string]func(*vh.Run){
		"M01": m01, "M02": m02, "M03": m03, "M04": m04, "M05": m05, "M06": m06, "M07": m07, "M08": m08, "M09": m09,
	})
}
