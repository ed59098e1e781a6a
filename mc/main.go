package main

import (
	"fmt"
	"os"
)

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

func findCheck(id string) *Check {
	for _, c := range checks {
		if c.ID == id {
			return c
		}
	}
	fatal("no such check", id)
	return nil
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: mc run|worker|path|helper ...")
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runMain(os.Args[2:]))
	case "worker":
		workerMain(os.Args[2:])
	case "path":
		pathMain(os.Args[2:])
	case "helper":
		helperMain(os.Args[2:])
	case "list":
		for _, c := range checks {
			for _, f := range c.Families {
				fmt.Println(c.ID, f.Name, "-", f.Space)
			}
		}
	default:
		fatal("unknown command", os.Args[1])
	}
}
