// Command monnyverif decides the properties of /verif/properties.jsonl by static analysis of /repo.
package main

import (
	"fmt"
	"os"
	"sort"
	"time"

	"monnyverif/eng"
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	eng.Debug = os.Getenv("DBG") != ""
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: monnyverif check ID | dump FUNC")
		os.Exit(2)
	}
	repo, verif := env("MONNY_REPO", "/repo"), env("MONNY_VERIF", "/verif")
	switch os.Args[1] {
	case "check":
		if len(os.Args) == 3 {
			os.Exit(runCheck(os.Args[2], repo, verif))
		}
	case "checkall": // for development: every check on one load
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		bad := 0
		for _, id := range ids {
			t := time.Now()
			bad += runCheck(id, repo, verif)
			if os.Getenv("TIMES") != "" {
				fmt.Println(id, time.Since(t).Round(time.Millisecond))
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
		return
	case "seq": // for development: the given checks until one reports something
		for _, id := range os.Args[2:] {
			if runCheck(id, repo, verif) != 0 {
				os.Exit(1)
			}
		}
		return
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	case "dump":
		dump(repo, os.Args[2:])
		return
	case "all":
		p, err := Load(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, f := range p.Fns {
			if f.Parent() != nil {
				continue
			}
			t := time.Now()
			e := p.Engine()
			outs := e.Run(f, nil, e.NewState())
			fmt.Printf("%-70s out=%d steps=%d %v errs=%v\n", f.String(), len(outs), e.Steps, time.Since(t).Round(time.Millisecond), e.Errs)
		}
		return
	}
	os.Exit(2)
}
