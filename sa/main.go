// Command sa decides semantic properties of github.com/qiniu/text from its
// source: it type-checks the tree, builds its SSA form and interprets it
// abstractly against the specification of one property.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// Ctx is the context of one check.
type Ctx struct {
	ID   string
	Tier string
	P    *ai.Program

	Violations []string
	Notes      map[string][]string // violation -> trace
	Oblig      int
	Paths      int
	Calls      int
	Loops      int
	Fns        map[string]bool
	Rules      []string
	Cases      []string
	Counts     map[string]int
	Assume     []string
}

type checkFn func(c *Ctx)

type check struct {
	fn          checkFn
	explanation string
}

var checks = map[string]check{}

func register(id, explanation string, fn checkFn) {
	checks[id] = check{fn, explanation}
}

// Violate records a violation.
func (c *Ctx) Violate(pos token.Pos, where, msg string, notes []string) {
	loc := c.Loc(pos)
	s := msg
	if where != "" {
		s = where + ": " + s
	}
	if loc != "" {
		s = loc + ": " + s
	}
	for _, v := range c.Violations {
		if v == s {
			return
		}
	}
	c.Violations = append(c.Violations, s)
	c.Notes[s] = notes
}

// Loc renders a position relative to the repository.
func (c *Ctx) Loc(pos token.Pos) string {
	if !pos.IsValid() || c.P == nil {
		return ""
	}
	p := c.P.Prog.Fset.Position(pos)
	f := p.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// Missing reports an anchor that cannot be found.
func (c *Ctx) Missing(what string) {
	c.Violate(token.NoPos, "", "cannot be decided: "+what+" is missing", nil)
}

// Must checks an obligation outside the interpreter.
func (c *Ctx) Must(ok bool, pos token.Pos, where, format string, args ...interface{}) bool {
	c.Oblig++
	if !ok {
		c.Violate(pos, where, fmt.Sprintf(format, args...), nil)
	}
	return ok
}

// Rule documents an applied rule in the evidence.
func (c *Ctx) Rule(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	for _, r := range c.Rules {
		if r == s {
			return
		}
	}
	c.Rules = append(c.Rules, s)
}

// Case documents an analysed case.
func (c *Ctx) Case(format string, args ...interface{}) {
	c.Cases = append(c.Cases, fmt.Sprintf(format, args...))
}

// Absorb takes over the results of a machine run.
func (c *Ctx) Absorb(what string, m *ai.Machine) {
	for _, f := range m.Findings {
		c.Violate(f.Pos, f.Where, what+": "+f.Msg, f.Notes)
	}
	for _, u := range m.Undecided {
		c.Violate(token.NoPos, "", what+": cannot be decided: "+u, nil)
	}
	c.Oblig += m.Oblig
	c.Paths += m.Paths
	c.Calls += m.Calls
	c.Loops += m.Loops
	for f := range m.Fns {
		c.Fns[f.String()] = true
	}
	m.Findings, m.Undecided = nil, nil
	m.Oblig, m.Paths, m.Calls, m.Loops = 0, 0, 0, 0
}

// Machine returns a fresh machine.
func (c *Ctx) Machine() *ai.Machine { return ai.NewMachine(c.P.Prog) }

// Func finds an exported function or reports it missing.
func (c *Ctx) Func(rel, name string) *ssa.Function {
	f := c.P.Func(rel, name)
	if f == nil || len(f.Blocks) == 0 {
		c.Missing("function " + rel + "." + name)
		return nil
	}
	return f
}

// Method finds a method or reports it missing.
func (c *Ctx) Method(rel, typ, name string) *ssa.Function {
	f := c.P.Method(rel, typ, name)
	if f == nil {
		c.Missing("method " + rel + "." + typ + "." + name)
		return nil
	}
	return f
}

// Type finds a type or reports it missing.
func (c *Ctx) Type(rel, name string) types.Type {
	t := c.P.Type(rel, name)
	if t == nil {
		c.Missing("type " + rel + "." + name)
	}
	return t
}

var repoDir = "/repo"

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "source tree")
	out := flag.String("evidence", "evidence", "evidence directory")
	known := flag.String("known", "KNOWN_FINDINGS.txt", "known findings")
	list := flag.Bool("list", false, "list checks")
	verbose := flag.Bool("v", false, "print traces")
	dump := flag.String("dump", "", "dump SSA of function")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	debug.SetGCPercent(400)
	repoDir, _ = filepath.Abs(*repo)
	t0 := time.Now()
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
	p, err := ai.LoadProgram(repoDir, env)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	if *dump != "" {
		for _, f := range p.AllFuncs() {
			if strings.Contains(f.String(), *dump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		ck, ok := checks[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "no check for", id)
			os.Exit(2)
		}
		t1 := time.Now()
		if len(ids) == 1 {
			t1 = t0
		}
		if run(id, ck, p, *out, *known, *verbose, t1) {
			code = 1
		}
	}
	os.Exit(code)
}

func run(id string, ck check, p *ai.Program, out, known string, verbose bool, t0 time.Time) bool {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{ID: id, Tier: tier, P: p, Notes: map[string][]string{}, Fns: map[string]bool{}, Counts: map[string]int{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if verbose {
					fmt.Println(string(debug.Stack()))
				}
				c.Violate(token.NoPos, "", fmt.Sprintf("cannot be decided: the analysis stopped: %v", r), nil)
			}
		}()
		ck.fn(c)
	}()
	// known findings
	var viol []string
	kn := loadKnown(known, id)
	for _, v := range c.Violations {
		hit := ""
		for _, k := range kn {
			if strings.Contains(v, k) {
				hit = k
			}
		}
		if hit != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v)
			continue
		}
		viol = append(viol, v)
	}
	if c.Oblig == 0 && len(viol) == 0 {
		viol = append(viol, "cannot be decided: no obligation was generated")
	}
	var fns []string
	for f := range c.Fns {
		fns = append(fns, strings.ReplaceAll(f, ai.RepoPrefix+"/", ""))
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":        ck.explanation,
		"functions_analysed": len(fns),
		"functions":          fns,
		"paths":              c.Paths,
		"call_sites":         c.Calls,
		"loops_solved":       c.Loops,
		"obligations":        c.Oblig,
		"discharged":         c.Oblig - len(viol),
		"rules":              c.Rules,
		"cases":              c.Cases,
	}
	for k, v := range c.Counts {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	if len(c.Assume) > 0 {
		ev["assumptions"] = c.Assume
	}
	os.MkdirAll(out, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if len(viol) == 0 {
		os.Remove(filepath.Join(out, id+".violations.txt"))
		fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d\n", id, c.Oblig, len(fns), c.Paths)
		return false
	}
	var sb strings.Builder
	for _, v := range viol {
		sb.WriteString(v + "\n")
		for _, n := range c.Notes[v] {
			sb.WriteString("    " + n + "\n")
		}
	}
	rp := filepath.Join(out, id+".violations.txt")
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range viol {
		if i >= 8 && !verbose {
			fmt.Printf("  ... %d more in %s\n", len(viol)-i, rp)
			break
		}
		fmt.Println("  " + v)
		if verbose {
			for _, n := range c.Notes[v] {
				fmt.Println("      " + n)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return true
}

// loadKnown reads the listed findings of a property: lines
// "known: property=<id> match=<substring> ...".
func loadKnown(file, id string) []string {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		if i := strings.Index(l, "match=\""); i >= 0 {
			rest := l[i+7:]
			if k := strings.Index(rest, "\""); k > 0 {
				out = append(out, rest[:k])
			}
		}
	}
	return out
}
