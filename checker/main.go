package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func main() {
	prop := flag.String("p", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "evidence directory")
	wk := flag.String("worker", "", "run as a worker of a property")
	plist := flag.Bool("props", false, "list the properties and their rules")
	list := flag.String("list", "", "list the instances of a property")
	inst := flag.String("i", "", "with -p: analyse the instances whose name contains this, in this process")
	dbg := flag.String("debug", "", "debug: dec, enc or op")
	flag.StringVar(&repoDir, "repo", repoDir, "repository")
	flag.StringVar(&verifDir, "verif", verifDir, "verification directory")
	flag.BoolVar(&verbose, "v", false, "show facts")
	flag.Parse()
	if e := os.Getenv("CK_REPO"); e != "" {
		repoDir = e
	}
	os.Setenv("CK_REPO", repoDir)
	switch {
	case *wk != "":
		worker(*wk, *tier)
	case *list != "":
		for _, in := range instsOf(findProp(*list), *tier) {
			fmt.Println(in.name)
		}
	case *plist:
		for _, p := range props {
			fmt.Printf("%s\t%s\n", p.id, p.rule)
		}
	case *dbg != "":
		debugCmd(*dbg, flag.Args())
	case *inst != "":
		p, err := loadProg()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, in := range instsOf(findProp(*prop), *tier) {
			if strings.Contains(in.name, *inst) {
				r := runInst(p, in)
				fmt.Printf("%s: %d outcomes %d/%d obligations outside %d, %d ms notes %v\n", r.Inst, r.Outcomes, r.Discharged, r.Obligations, r.Outside, r.Ms, r.Notes)
				for _, u := range r.Undecided {
					fmt.Println("   UNDECIDED", u)
				}
				for _, f := range r.Findings {
					fmt.Println("  ", f.Kind, f.Pos, f.Msg)
				}
			}
		}
	case *prop != "":
		if *out == "" {
			*out = filepath.Join(verifDir, "evidence")
		}
		os.Exit(check(*prop, *tier, *out))
	default:
		flag.Usage()
		os.Exit(2)
	}
}

func debugCmd(kind string, args []string) {
	t := time.Now()
	p, err := loadProg()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortErr); ok {
				fmt.Println("ABORT", a.why)
				os.Exit(2)
			}
			panic(r)
		}
	}()
	x := newEng(p, 64, false)
	switch kind {
	case "dec":
		debugDec(x, args)
	case "enc":
		debugEnc(x, args)
	default:
		debugMain(x, args)
	}
	fmt.Println("done", time.Since(t))
}
