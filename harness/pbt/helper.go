package pbt

import "os"

// Helpers are functions that cases run in processes of their own, as "vrun helper NAME ARG...".
var Helpers = map[string]func([]string){}

// Self is the path of the running program.
func Self() string {
	self, err := os.Executable()
	must(err)
	return self
}

// FabBin is the path of the fab command built from the code under test.
func FabBin() string { return os.Getenv("VERIF_FAB") }
