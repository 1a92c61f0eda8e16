// Command checker decides the properties of /verif/properties.jsonl on
// /repo's current source by static analysis.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID    string
	Rule  string
	Trust []string
	Run   func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Obligation is one decided instance of a rule.
type Obligation struct {
	Rule, Construct, Where string
	Status                 string // held, violated, undecided
	Detail                 string
}

// Ctx is the context of one check run.
type Ctx struct {
	*Repo
	Check *Check
	Tier  string
	Obs   []Obligation
	Fns   map[string]bool
	Extra map[string]any
	seen  map[string]bool
}

func (c *Ctx) add(o Obligation) {
	k := o.Rule + "|" + o.Construct + "|" + o.Status + "|" + o.Detail
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Obs = append(c.Obs, o)
}

// Held records a discharged obligation.
func (c *Ctx) Held(rule, construct, where string) {
	c.add(Obligation{Rule: rule, Construct: construct, Where: where, Status: "held"})
}

// Violate records a definite violation.
func (c *Ctx) Violate(rule, construct, where, format string, a ...any) {
	c.add(Obligation{rule, construct, where, "violated", fmt.Sprintf(format, a...)})
}

// Undecided records an obligation the analysis cannot decide.
func (c *Ctx) Undecided(rule, construct, where, format string, a ...any) {
	c.add(Obligation{rule, construct, where, "undecided", fmt.Sprintf(format, a...)})
}

// Expect records held or violated.
func (c *Ctx) Expect(ok bool, rule, construct, where, format string, a ...any) {
	if ok {
		c.Held(rule, construct, where)
	} else {
		c.Violate(rule, construct, where, format, a...)
	}
}

// Analysed notes a function whose body was inspected.
func (c *Ctx) Analysed(fn *ssa.Function) {
	if fn != nil {
		c.Fns[fn.String()] = true
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(6 << 30)
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = "quick"
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	t0 := time.Now()
	r, err := loadRepo(*repo)
	if len(ids) > 0 && ids[0] == "mkref" {
		if err != nil {
			panic(err)
		}
		var only map[string]bool
		if len(ids) > 1 {
			only = map[string]bool{}
			for _, k := range ids[1:] {
				only[k] = true
			}
		}
		if err := mkref(r, filepath.Join(verifDir(), "refs"), only); err != nil {
			panic(err)
		}
		return
	}
	code := 0
	for _, id := range ids {
		ch := checks[id]
		if ch == nil {
			fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
			pprof.StopCPUProfile()
			os.Exit(2)
		}
		if !runCheck(ch, r, err, *tier, *verbose, t0) {
			code = 1
		}
		t0 = time.Now()
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

type finding struct{ prop, key string }

// knownFindings reads the committed list: lines "finding: property=<id> key=<rule|construct> <text>".
func knownFindings() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
			out[strings.TrimPrefix(f[0], "property=")+"|"+strings.ReplaceAll(strings.TrimPrefix(f[1], "key="), "_", " ")] = f[2]
		}
	}
	return out
}

// refFindings reads "finding: property=<id> ref=<function> <text>": defects the
// reference semantics of a function has, present while the function keeps it.
func refFindings(id string) map[string][]string {
	out := map[string][]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "ref=") {
			k := strings.TrimPrefix(f[2], "ref=")
			out[k] = append(out[k], f[3])
		}
	}
	return out
}

func runCheck(ch *Check, r *Repo, lerr error, tier string, verbose bool, t0 time.Time) bool {
	c := &Ctx{Repo: r, Check: ch, Tier: tier, Fns: map[string]bool{}, Extra: map[string]any{}, seen: map[string]bool{}}
	if lerr != nil {
		c.Repo = &Repo{}
		c.Undecided("the repository type-checks", "go list/type check", "/repo", "%v", lerr)
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Undecided("analysis completes", "checker panic", "", "%v\n%s", e, debug.Stack())
				}
			}()
			ch.Run(c)
		}()
	}
	known := knownFindings()
	held, undec := 0, 0
	var viol []Obligation
	for _, o := range c.Obs {
		switch o.Status {
		case "held":
			held++
		case "undecided":
			undec++
		case "violated":
			if txt, ok := known[ch.ID+"|"+o.Rule+"|"+o.Construct]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", ch.ID, txt, o.Where)
				continue
			}
			viol = append(viol, o)
		}
	}
	if held == 0 && len(viol) == 0 {
		fmt.Printf("UNDECIDED property=%s no obligation could be decided on this tree\n", ch.ID)
	}
	if verbose {
		for _, o := range c.Obs {
			fmt.Printf("  [%s] %s :: %s @ %s %s\n", o.Status, o.Rule, o.Construct, o.Where, o.Detail)
		}
	}
	for _, o := range c.Obs {
		if o.Status == "undecided" {
			fmt.Printf("UNDECIDED property=%s rule=%q construct=%q at %s: %s\n", ch.ID, o.Rule, o.Construct, o.Where, o.Detail)
		}
	}
	edir := filepath.Join(verifDir(), "evidence")
	rdir := filepath.Join(edir, "replay")
	os.MkdirAll(rdir, 0o755)
	for i, o := range viol {
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.txt", ch.ID, i+1))
		os.WriteFile(p, []byte(fmt.Sprintf("property: %s\nrule: %s\nconstruct: %s\nwhere: %s\n\n%s\n\nreplay: %s/run.sh %s\n", ch.ID, o.Rule, o.Construct, o.Where, o.Detail, verifDir(), ch.ID)), 0o644)
		fmt.Printf("%s: %s: %s\n    %s\n", o.Where, o.Rule, o.Construct, strings.ReplaceAll(o.Detail, "\n", "\n    "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, p)
	}
	writeEvidence(c, tier, held, undec, len(viol), time.Since(t0).Seconds(), edir)
	fmt.Printf("%s: %d obligations, %d held, %d undecided, %d violations, %d functions analysed (%.1fs)\n", ch.ID, len(c.Obs), held, undec, len(viol), len(c.Fns), time.Since(t0).Seconds())
	return len(viol) == 0
}

func writeEvidence(c *Ctx, tier string, held, undec, viol int, wall float64, dir string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range c.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	byRule := map[string]map[string]int{}
	var samples []any
	per := map[string]int{}
	for _, o := range c.Obs {
		if byRule[o.Rule] == nil {
			byRule[o.Rule] = map[string]int{}
		}
		byRule[o.Rule][o.Status]++
		if per[o.Rule] < 3 {
			per[o.Rule]++
			samples = append(samples, map[string]string{"rule": o.Rule, "construct": o.Construct, "where": o.Where, "status": o.Status, "detail": o.Detail})
		}
	}
	cov := map[string]any{
		"explanation":        c.Check.Rule,
		"obligations":        len(c.Obs),
		"discharged":         held,
		"undecided":          undec,
		"functions_analysed": fns,
		"by_rule":            byRule,
		"samples":            samples,
		"checker_cmd":        verifDir() + "/run.sh " + c.Check.ID,
		"trusted_base":       append([]string{"go/types, golang.org/x/tools/go/ssa", "the checker in /verif/checker"}, c.Check.Trust...),
	}
	for k, v := range c.Extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.Check.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": c.Check.Trust,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.Check.ID+".json"), append(b, '\n'), 0o644)
}
