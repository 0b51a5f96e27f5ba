package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

var checks = map[string]func(*Prog, *Report){}

var debugFlag = flag.Bool("debug", false, "print debugging output")
var dumpFlag = flag.String("dump", "", "dump points-to of functions")

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	list := flag.Bool("list", false, "list the properties that have checks")
	flag.Parse()
	debug.SetGCPercent(600)
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(90 * time.Second); pprof.StopCPUProfile() }()
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if *prop == "all" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		rc := 0
		for _, id := range ids {
			if c := runCheck(id, *repo, *verif); c != 0 {
				rc = c
			}
		}
		os.Exit(rc)
	}
	if checks[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	os.Exit(runCheck(*prop, *repo, *verif))
}

func runCheck(id, repo, verif string) (rc int) {
	r := newReport(id)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if f, ok := e.(fatal); ok {
					r.undecided("the analysis of the remaining code", f.msg)
					return
				}
				r.undecided("the analysis of the remaining code", fmt.Sprintf("internal error %v\n%s", e, debug.Stack()))
			}
		}()
		checks[id](load(repo), r)
	}()
	return r.finish(verif)
}
