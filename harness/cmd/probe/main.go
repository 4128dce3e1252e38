// Command probe does nothing: it shows that programs can be built and run.
package main

import "fmt"

func main() { Main() }

// Main is main for cmd/plugin.
func Main() { fmt.Println("ok") }
