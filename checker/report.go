package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"golang.org/x/tools/go/ssa"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Ctx carries one property's run.
type Ctx struct {
	P    *Prog
	A    *Analyzer
	Prop string
	obls []Obl
	mins map[string]int
	samp []string
	assm []string
	rule string

	siteMemo map[*ssa.Function][]ssa.CallInstruction
}

// Obl is one decided obligation: rule + construct, with the evidence for the decision.
type Obl struct {
	Rule, Construct, Pos, Detail string
	OK                           bool
}

func (c *Ctx) ob(rule, construct string, ok bool, pos token.Pos, detail string, args ...any) {
	c.obls = append(c.obls, Obl{Rule: rule, Construct: construct, OK: ok, Pos: c.P.pos(pos), Detail: fmt.Sprintf(detail, args...)})
}

func (c *Ctx) min(rule string, n int) {
	if c.mins == nil {
		c.mins = map[string]int{}
	}
	// n were found and confirmed by hand; code moved into a shared helper makes fewer places of the same obligations
	if n > 2 {
		n = (n*3 + 4) / 5
	}
	c.mins[rule] = n
}

func (c *Ctx) missing(what string) {
	c.obls = append(c.obls, Obl{Rule: "anchor", Construct: what, OK: false, Pos: "-", Detail: "the construct this rule is anchored at does not resolve in the current tree"})
}

func (c *Ctx) assume(s string) { c.assm = append(c.assm, s) }

type Check struct {
	Run  func(c *Ctx)
	Rule string
}

var checks = map[string]Check{}

func reg(id, rule string, f func(c *Ctx)) { checks[id] = Check{Run: f, Rule: rule} }

type knownFinding struct{ prop, key, text string }

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		// property=<id> key=<rule>|<construct> :: text
		hd, text, _ := strings.Cut(l, " :: ")
		pr, key, ok := strings.Cut(hd, " key=")
		if !ok {
			continue
		}
		out = append(out, knownFinding{prop: strings.TrimPrefix(pr, "property="), key: strings.TrimSpace(key), text: text})
	}
	return out
}

// reuse keeps the loaded program from one property to the next (-prop all, used while developing).
var reuse bool
var shared *Ctx

func runProp(id, root, vdir, tier string, seed int) int {
	t0 := time.Now()
	ch, ok := checks[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	c := &Ctx{Prop: id}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("CHK_PANIC") != "" {
					panic(r)
				}
				c.obls = append(c.obls, Obl{Rule: "checker", Construct: "panic", Pos: "-", Detail: fmt.Sprintf("the analysis could not decide: %v", r)})
			}
		}()
		if shared != nil {
			c.P, c.A = shared.P, newAnalyzer(shared.P)
			ch.Run(c)
			return
		}
		p, err := loadProg(root)
		if err != nil {
			c.obls = append(c.obls, Obl{Rule: "checker", Construct: "load", Pos: "-", Detail: "the tree does not load: " + err.Error()})
			return
		}
		c.P = p
		c.A = newAnalyzer(p)
		if reuse {
			shared = c
		}
		ch.Run(c)
	}()
	cnt := map[string]int{}
	for _, o := range c.obls {
		cnt[o.Rule]++
	}
	for r, n := range c.mins {
		if cnt[r] < n {
			c.obls = append(c.obls, Obl{Rule: "instances", Construct: r, Pos: "-", Detail: fmt.Sprintf("only %d instances of rule %s were found, at least %d are expected (more were confirmed by hand)", cnt[r], r, n)})
		}
	}
	known := loadKnown(filepath.Join(vdir, "known-findings.txt"))
	var viol []Obl
	disch := 0
	seenK := map[string]bool{}
	seenV := map[string]bool{}
	for _, o := range c.obls {
		if o.OK {
			disch++
			continue
		}
		key := o.Rule + "|" + o.Construct
		isK := false
		for _, k := range known {
			if k.prop == id && k.key == key {
				isK = true
				if !seenK[key] {
					seenK[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", id, k.text, key, o.Pos)
				}
			}
		}
		if !isK && !seenV[key+o.Pos] {
			seenV[key+o.Pos] = true
			viol = append(viol, o)
		}
	}
	nf, nfile, npkg := 0, 0, 0
	var fns []string
	if c.P != nil {
		nf, nfile, npkg = len(c.P.Funcs), c.P.nFile, len(c.P.Pkgs)
		for f := range c.A.visitedF {
			fns = append(fns, fnKey(f))
		}
		sort.Strings(fns)
	}
	fmt.Printf("property %s: %s\n", id, ch.Rule)
	fmt.Printf("analysed %d packages, %d files, %d functions in the resolved program; %d functions visited by the path analysis\n", npkg, nfile, nf, len(fns))
	var rules []string
	for r := range cnt {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	for _, r := range rules {
		fmt.Printf("  rule %-28s %d instances\n", r, cnt[r])
	}
	if tier == "thorough" || os.Getenv("CHK_VERBOSE") != "" {
		for _, o := range c.obls {
			st := "ok "
			if !o.OK {
				st = "BAD"
			}
			fmt.Printf("    %s %s | %s  %s  %s\n", st, o.Rule, o.Construct, o.Pos, o.Detail)
		}
	}
	rc := 0
	os.MkdirAll(filepath.Join(vdir, "evidence"), 0o755)
	for i, o := range viol {
		rp := filepath.Join(vdir, "evidence", fmt.Sprintf("%s-violation-%d.txt", id, i+1))
		os.WriteFile(rp, []byte(fmt.Sprintf("property: %s\nrule: %s\nconstruct: %s\nat: %s\n%s\n\nreplay: %s/check.sh %s\n", id, o.Rule, o.Construct, o.Pos, o.Detail, vdir, id)), 0o644)
		fmt.Printf("  violated: rule=%s construct=%s at %s: %s\n", o.Rule, o.Construct, o.Pos, o.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		rc = 1
	}
	var samples []any
	step := len(c.obls)/12 + 1
	for i := 0; i < len(c.obls); i += step {
		o := c.obls[i]
		samples = append(samples, map[string]any{"rule": o.Rule, "construct": o.Construct, "at": o.Pos, "holds": o.OK, "detail": o.Detail})
	}
	if len(fns) > 60 {
		fns = append(fns[:60], fmt.Sprintf("… %d more", len(fns)-60))
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":       "Static analysis of the type-checked program and its SSA form: " + ch.Rule + " Every obligation is an instance of a rule at a specific construct of the current source; it is discharged only if the required facts hold on every control-flow path to that construct (calls followed into module functions).",
			"obligations":       len(c.obls),
			"discharged":        disch,
			"instances_by_rule": cnt,
			"packages":          npkg, "files": nfile, "functions_loaded": nf,
			"functions_visited": fns,
			"samples":           samples,
			"known_findings":    len(seenK),
			"checker_cmd":       "./check.sh " + id,
			"trusted_base":      []string{"go/types and golang.org/x/tools/go/ssa", "the rule tables in /verif/checker", "external packages (badger, cbor, crypto) behave as documented"},
		},
		"assumptions": c.assm,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(viol),
	}
	if c.assm == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(vdir, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	if rc == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d known=%d\n", id, len(c.obls), disch, len(seenK))
	}
	return rc
}
