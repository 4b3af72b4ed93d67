package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
)

func main() {
	prop := flag.String("prop", "", "property id")
	root := flag.String("root", "/repo", "tree to analyse")
	vdir := flag.String("verif", "/verif", "verification dir")
	tier := flag.String("tier", "", "quick|thorough")
	dump := flag.String("dump", "", "entry function: dump facts at calls to -callee")
	callee := flag.String("callee", "", "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *dump != "" {
		dumpFacts(*root, *dump, *callee)
		return
	}
	if *list {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, i := range ids {
			fmt.Println(i)
		}
		return
	}
	if *prop == "all" {
		reuse = true
		rc := 0
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, i := range ids {
			if r := runProp(i, *root, *vdir, *tier, seed); r != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	os.Exit(runProp(*prop, *root, *vdir, *tier, seed))
}

func dumpFacts(root, entry, callee string) {
	p, err := loadProg(root)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	a := newAnalyzer(p)
	f := p.fn(entry)
	if f == nil {
		for _, g := range p.Funcs {
			fmt.Println(fnKey(g))
		}
		return
	}
	if callee == "summary" {
		for _, k := range []string{"nil", "true", "any"} {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				fmt.Println("SUMMARY", i, k)
				for _, x := range a.summary(f, i, k).list() {
					if x.Kind != "called" {
						fmt.Println("   ", x)
					}
				}
				fmt.Println("  result term:", a.results(f, i))
			}
		}
		return
	}
	for _, e := range a.effects(f, func(in ssaInstr) bool { return calleeIs(in, callee) }, nil) {
		fmt.Println("EFFECT", e.Chain, p.pos(e.Instr.Pos()))
		for _, x := range e.Args {
			fmt.Println("   arg", x)
		}
		for _, x := range e.Facts.list() {
			if x.Kind != "called" {
				fmt.Println("   fact", x)
			}
		}
	}
}
