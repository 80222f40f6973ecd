// Package checks holds the per-property analyses.
package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
	"notifysa/internal/load"
)

// Finding is one violated obligation.
type Finding struct {
	Rule      string   // rule identifier
	Construct string   // function / call site / field the rule failed for
	Pos       string   // file:line
	Msg       string   // what is wrong
	Trace     []string // how the analysis got there
}

// Key identifies a finding independently of line numbers.
func (f Finding) Key() string { return f.Rule + " @ " + f.Construct }

// soft findings are parts of the code the analysis cannot decide: reported in
// the evidence, but no alarm.
func (f Finding) soft() bool {
	return f.Rule == "undecided" || f.Rule == "resolve" || f.Rule == "analysis"
}

// Report is the outcome of one check.
type Report struct {
	Prop        string
	Findings    []Finding
	Cov         map[string]interface{}
	Samples     []string
	Assumptions []string
	Obligations int
	seen        map[string]bool
}

// Ctx is handed to every check.
type Ctx struct {
	Repo     string
	Thorough bool
	Seed     int64
	Debug    bool
	R        *Report
	progs    map[string]*load.Program
	Keep     func(rule string) bool // limits what is reported
}

// Check is a registered analysis.
type Check struct {
	ID  string
	Run func(c *Ctx)
}

var registry []Check

func register(id string, run func(c *Ctx)) { registry = append(registry, Check{id, run}) }

// IDs lists the registered checks.
func IDs() []string {
	var r []string
	for _, c := range registry {
		r = append(r, c.ID)
	}
	sort.Strings(r)
	return r
}

// Fail records a violated obligation.
func (c *Ctx) Fail(rule, construct, pos, format string, a ...interface{}) {
	c.FailTrace(rule, construct, pos, nil, format, a...)
}

// FailTrace records a violated obligation with a path.
func (c *Ctx) FailTrace(rule, construct, pos string, trace []string, format string, a ...interface{}) {
	if c.Keep != nil && !(Finding{Rule: rule}).soft() && !c.Keep(rule) {
		return
	}
	f := Finding{rule, construct, pos, fmt.Sprintf(format, a...), trace}
	k := f.Key() + "|" + f.Msg
	if c.R.seen[k] {
		return
	}
	c.R.seen[k] = true
	c.R.Findings = append(c.R.Findings, f)
}

// OK counts a discharged or failed obligation.
func (c *Ctx) Oblige(n int) { c.R.Obligations += n }

// Sample keeps a readable example of what was analysed.
func (c *Ctx) Sample(format string, a ...interface{}) {
	if len(c.R.Samples) < 12 {
		c.R.Samples = append(c.R.Samples, fmt.Sprintf(format, a...))
	}
}

// Count adds to a coverage counter.
func (c *Ctx) Count(key string, n int) {
	if v, ok := c.R.Cov[key].(int); ok {
		c.R.Cov[key] = v + n
	} else {
		c.R.Cov[key] = n
	}
}

// Assume records an assumption.
func (c *Ctx) Assume(s string) {
	for _, a := range c.R.Assumptions {
		if a == s {
			return
		}
	}
	c.R.Assumptions = append(c.R.Assumptions, s)
}

// Linux is the configuration the checks analyse most.
var Linux = load.Config{Name: "linux", GOOS: "linux"}

// Load resolves a configuration; a failure is a finding.
func (c *Ctx) Load(cfg load.Config) *load.Program {
	if p, ok := c.progs[cfg.Name]; ok {
		return p
	}
	p, err := load.Load(c.Repo, cfg)
	if err != nil {
		c.Fail("resolve", "configuration "+cfg.Name, "", "%v", err)
		p = nil
	}
	c.progs[cfg.Name] = p
	return p
}

// PosOf renders the position of a function or instruction.
func PosOf(p *load.Program, f *ssa.Function) string {
	q := p.Prog.Fset.Position(f.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// InstrPos renders the position of an instruction.
func InstrPos(p *load.Program, in ssa.Instruction) string {
	pos := in.Pos()
	if !pos.IsValid() && in.Block() != nil {
		for _, j := range in.Block().Instrs {
			if j.Pos().IsValid() {
				pos = j.Pos()
				break
			}
		}
	}
	if !pos.IsValid() {
		pos = in.Parent().Pos()
	}
	q := p.Prog.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// ---- known findings

// Known is the committed list of recorded defects.
type Known struct{ Prop, Key, What string }

func readKnown(path string) []Known {
	var out []Known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=<id> key=<rule @ construct> :: <what fails>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			continue
		}
		k := Known{Prop: l[:i]}
		l = strings.TrimPrefix(strings.TrimSpace(l[i:]), "key=")
		if j := strings.Index(l, " :: "); j >= 0 {
			k.Key, k.What = l[:j], l[j+4:]
		} else {
			k.Key = l
		}
		out = append(out, k)
	}
	return out
}

// Main runs one check and returns the exit code.
func Main(id, repo, verif string, thorough bool, dbg bool) int {
	start := time.Now()
	var ck *Check
	for i := range registry {
		if registry[i].ID == id {
			ck = &registry[i]
		}
	}
	if ck == nil {
		fmt.Fprintf(os.Stderr, "no check for %s\n", id)
		return 2
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 420 * time.Second
	if thorough {
		budget = 780 * time.Second
	}
	absint.Deadline = start.Add(budget)
	c := &Ctx{Repo: repo, Thorough: thorough, Seed: seed, Debug: dbg, progs: map[string]*load.Program{}}
	c.R = &Report{Prop: id, Cov: map[string]interface{}{}, seen: map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if dbg {
					panic(r)
				}
				c.Fail("analysis", "internal", "", "the analysis did not finish: %v\n%s", r, debug.Stack())
			}
		}()
		ck.Run(c)
	}()
	known := readKnown(filepath.Join(verif, "known_findings.txt"))
	sort.SliceStable(c.R.Findings, func(i, j int) bool { return c.R.Findings[i].Key() < c.R.Findings[j].Key() })
	var bad []Finding
	var open []Finding
	shown := map[string]bool{}
	for _, f := range c.R.Findings {
		if f.soft() {
			open = append(open, f)
		}
	}
	for _, f := range c.R.Findings {
		if f.soft() || len(open) > 0 && strings.HasSuffix(f.Rule, "/vacuous") {
			// Not a violation: the analysis has nothing to say about this
			// part of the code, and says so.
			continue
		}
		listed := false
		for _, k := range known {
			if k.Prop == id && k.Key == f.Key() {
				listed = true
				if !shown[k.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				}
				shown[k.Key] = true
			}
		}
		if !listed {
			bad = append(bad, f)
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	rep := filepath.Join(verif, "evidence", id+".report.txt")
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "rule      %s\nconstruct %s\nat        %s\n%s\n", f.Rule, f.Construct, f.Pos, f.Msg)
		for _, t := range f.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
		sb.WriteByte('\n')
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	cov := c.R.Cov
	if len(open) > 0 {
		var l []string
		for i, f := range open {
			if i == 20 {
				l = append(l, fmt.Sprintf("... and %d more", len(open)-20))
				break
			}
			l = append(l, fmt.Sprintf("%s: %s: %s: %.300s", f.Rule, f.Construct, f.Pos, f.Msg))
			fmt.Printf("UNDECIDED property=%s %s: %s: %.300s\n", id, f.Pos, f.Construct, f.Msg)
		}
		cov["undecided"] = l
	}
	cov["undecided_parts"] = len(open)
	cov["obligations"] = c.R.Obligations
	cov["discharged"] = c.R.Obligations - len(c.R.Findings)
	if len(c.R.Samples) > 0 {
		cov["samples"] = c.R.Samples
	}
	if _, ok := cov["explanation"]; !ok {
		cov["explanation"] = "static analysis of the resolved program; see DESIGN.md"
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": c.R.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	if c.R.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	if len(bad) > 0 {
		for i, f := range bad {
			if i == 20 {
				fmt.Printf("... and %d more\n", len(bad)-20)
				break
			}
			fmt.Printf("%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
		return 1
	}
	if len(open) > 0 && os.Getenv("NOTIFYSA_STRICT") != "" {
		return 3
	}
	fmt.Printf("ok property=%s obligations=%d wall=%.1fs\n", id, c.R.Obligations, time.Since(start).Seconds())
	return 0
}

// mark returns a function that undoes what the report gained since.
func (c *Ctx) mark() func() {
	nf, ob, ns := len(c.R.Findings), c.R.Obligations, len(c.R.Samples)
	seen := map[string]bool{}
	for k := range c.R.seen {
		seen[k] = true
	}
	cov := map[string]interface{}{}
	for k, v := range c.R.Cov {
		cov[k] = v
	}
	return func() {
		c.R.Findings, c.R.seen, c.R.Obligations, c.R.Samples, c.R.Cov = c.R.Findings[:nf], seen, ob, c.R.Samples[:ns], cov
	}
}

// ---- interpreter scenarios

// Scenario runs one abstract-interpretation scenario, refining the bit
// partition until every constant met is respected.
func (c *Ctx) Scenario(p *load.Program, name string, consts []uint32, run func(m *absint.Machine, s *absint.State)) *absint.Machine {
	for round := 0; round < 40; round++ {
		m := absint.NewMachine(p.Prog, p.Pkg, absint.Partition(consts))
		m.Debug = c.Debug
		m.DumpStates = os.Getenv("NOTIFYSA_DUMP") != ""
		nf := len(c.R.Findings)
		seen := map[string]bool{}
		for k := range c.R.seen {
			seen[k] = true
		}
		ob := c.R.Obligations
		ns := len(c.R.Samples)
		s := m.Init()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if !m.NoteSplit(r) {
						panic(r)
					}
				}
			}()
			run(m, s)
		}()
		if len(m.Split) > 0 {
			consts = append(consts, m.Split...)
			c.R.Findings, c.R.seen, c.R.Obligations, c.R.Samples = c.R.Findings[:nf], seen, ob, c.R.Samples[:ns]
			continue
		}
		for _, u := range m.Undecided {
			pos := u
			if i := strings.Index(u, ": "); i >= 0 {
				pos = u[:i]
			}
			construct := name
			if i := strings.Index(pos, "("); i >= 0 {
				construct = strings.Trim(pos[i:], "()") + " in " + name
			}
			c.Fail("undecided", construct, pos, "the analysis cannot decide this code: %s", u)
		}
		c.Count("abstract_states", m.States)
		c.Count("abstract_steps", m.Steps)
		c.Count("states_merged", m.Merged)
		c.Count("path_ends", m.PathEnds)
		fns, _ := c.R.Cov["functions_analysed"].([]string)
		have := map[string]bool{}
		for _, f := range fns {
			have[f] = true
		}
		for f := range m.Funcs {
			n := f.RelString(p.Pkg.Pkg)
			if !have[n] {
				have[n] = true
				fns = append(fns, n)
			}
		}
		sort.Strings(fns)
		c.R.Cov["functions_analysed"] = fns
		return m
	}
	c.Fail("undecided", name, "", "the bit partition does not converge")
	return nil
}
