//go:build !linux || !(amd64 || 386)

package main

import "verif/harness/pbt"

func memSuites() []*pbt.Suite { return nil }
