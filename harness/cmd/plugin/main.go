// Command plugin runs a suite that was built as a plugin.
package main

import (
	"fmt"
	"os"
	"plugin"
)

func main() {
	p, err := plugin.Open(os.Args[1])
	if err == nil {
		var f plugin.Symbol
		if f, err = p.Lookup("Main"); err == nil {
			f.(func())()
			return
		}
	}
	fmt.Fprintln(os.Stderr, "plugin:", err)
	os.Exit(3)
}
