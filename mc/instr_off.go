//go:build !instr

package main

const instrumented = false

// resetLib gives all package variables of the library their initial values
func resetLib() { panic("not an instrumented build") }
