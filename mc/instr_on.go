//go:build instr

package main

import "github.com/textwire/textwire/v2/verifhook"

const instrumented = true

// resetLib gives all package variables of the library their initial values
func resetLib() { verifhook.Reset() }
