package main

// helperMain runs a small piece of work in a process of its own, for the
// checks whose behaviour depends on process wide state.
var helpers = map[string]func(a map[string]string){}

func helperMain(args []string) {
	if len(args) == 0 {
		fatal("helper NAME ...")
	}
	f := helpers[args[0]]
	if f == nil {
		fatal("no helper", args[0])
	}
	f(argMap(args[1:]))
}
