// Command notifysa decides the semantic properties of rjeczalik/notify listed
// in properties.jsonl by static analysis of the source in /repo.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"

	"notifysa/internal/checks"
)

func main() {
	repo := flag.String("repo", "/repo", "source tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	prop := flag.String("prop", "", "property to decide")
	list := flag.Bool("list", false, "list the properties")
	dbg := flag.Bool("debug", false, "crash on internal errors")
	flag.Parse()
	if *list {
		for _, id := range checks.IDs() {
			fmt.Println(id)
		}
		return
	}
	if f := os.Getenv("NOTIFYSA_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		rc := checks.Main(*prop, *repo, *verif, os.Getenv("VERIF_TIER") == "thorough", *dbg)
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	os.Exit(checks.Main(*prop, *repo, *verif, os.Getenv("VERIF_TIER") == "thorough", *dbg))
}
