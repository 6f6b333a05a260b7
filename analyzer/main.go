package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
)

func main() {
	debug.SetGCPercent(400)
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 2 && os.Args[1] == "debug" {
		debugMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "list" {
		var ids []string
		for id := range specs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
}
