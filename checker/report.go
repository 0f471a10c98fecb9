package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Violation names one construct that breaks a rule.
type Violation struct {
	Rule      string // short rule name
	Construct string // function, field, template, ... (stable, no line numbers)
	Pos       string
	Msg       string
	Path      string
}

// Key identifies a violation independent of line numbers.
func (v Violation) Key() string { return v.Rule + "|" + v.Construct }

// Ctx collects what one check decided.
type Ctx struct {
	W          *World
	Prop       string
	Tier       string
	obligs     map[string]int      // per rule: number of obligations
	samples    map[string][]string // per rule: examples of discharged obligations
	violations []Violation
	seen       map[string]bool
	Counts     map[string]int // free-form measured counts
	Notes      []string
}

func NewCtx(w *World, prop, tier string) *Ctx {
	return &Ctx{W: w, Prop: prop, Tier: tier, obligs: map[string]int{}, samples: map[string][]string{}, seen: map[string]bool{}, Counts: map[string]int{}}
}

// Ob records an obligation that was examined.
func (c *Ctx) Ob(rule, construct string) {
	c.obligs[rule]++
	if len(c.samples[rule]) < 6 {
		c.samples[rule] = append(c.samples[rule], construct)
	}
}

// ObOnce records an obligation that may be met several times.
func (c *Ctx) ObOnce(rule, construct string) {
	k := "ob|" + rule + "|" + construct
	if !c.seen[k] {
		c.seen[k] = true
		c.Ob(rule, construct)
	}
}

// Bad records a violated obligation.
func (c *Ctx) Bad(rule, construct string, pos token.Pos, format string, args ...any) {
	c.BadAt(rule, construct, c.W.pos(pos), "", format, args...)
}

func (c *Ctx) BadAt(rule, construct, pos, path, format string, args ...any) {
	v := Violation{Rule: rule, Construct: construct, Pos: pos, Path: path, Msg: fmt.Sprintf(format, args...)}
	k := v.Key() + "|" + v.Msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.violations = append(c.violations, v)
}

// Floor fails the check when a rule matched fewer constructs than expected:
// a rule that matches nothing would hold vacuously.
func (c *Ctx) Floor(rule string, n int) {
	if c.obligs[rule] < n {
		c.BadAt("floor", rule, "-", "", "rule %s examined only %d constructs, at least %d were expected: its anchors are gone", rule, c.obligs[rule], n)
	}
}

type known struct {
	key  string
	line string
}

// loadKnown reads the findings that are recorded instead of repaired.
// Format: known: property=<id> <rule>|<construct> -- <what fails>
func loadKnown(path, prop string) ([]known, error) {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" ")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " -- ")
		out = append(out, known{strings.TrimSpace(key), strings.TrimSpace(what)})
	}
	return out, sc.Err()
}

// Finish prints the verdict, writes the evidence and returns the exit code.
func (c *Ctx) Finish(verif string, rule *Check, start time.Time, seed int) int {
	kn, err := loadKnown(filepath.Join(verif, "known_findings.txt"), c.Prop)
	if err != nil {
		c.BadAt("internal", "known_findings.txt", "-", "", "%v", err)
	}
	for _, r := range sortedKeys(rule.Floors) {
		c.Floor(r, rule.Floors[r])
	}

	var open []Violation
	var listed []string
	for _, v := range c.violations {
		hit := false
		for _, k := range kn {
			if k.key == v.Key() {
				hit = true
				listed = append(listed, v.Key())
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.Prop, k.line, v.Pos)
				break
			}
		}
		if !hit {
			open = append(open, v)
		}
	}
	sort.SliceStable(open, func(i, j int) bool { return len(open[i].Path) < len(open[j].Path) })

	total := 0
	for _, n := range c.obligs {
		total += n
	}
	var samples []string
	for _, r := range sortedKeys(c.samples) {
		for _, s := range c.samples[r] {
			samples = append(samples, r+": "+s)
		}
	}
	cov := map[string]any{
		"explanation":             rule.Explain,
		"packages_of_repository":  len(c.W.Pkgs),
		"packages_type_checked":   c.W.NDeps,
		"functions_in_repository": len(c.W.Fns),
		"obligations_examined":    total,
		"obligations_violated":    len(c.violations),
		"obligations_per_rule":    c.obligs,
		"samples":                 samples,
	}
	for k, v := range c.Counts {
		cov[k] = v
	}
	if len(c.Notes) > 0 {
		cov["notes"] = c.Notes
	}
	if len(listed) > 0 {
		cov["known_findings"] = listed
	}
	if len(open) > 0 {
		var vs []map[string]string
		for _, v := range open {
			vs = append(vs, map[string]string{"rule": v.Rule, "construct": v.Construct, "pos": v.Pos, "path": v.Path, "message": v.Msg})
		}
		cov["violation_list"] = vs
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": rule.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(open),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	replay := filepath.Join(dir, c.Prop+".violations.txt")
	os.Remove(replay)
	fmt.Printf("%s: %d obligations examined, %d violated, %d of them listed as known\n", c.Prop, total, len(c.violations), len(listed))
	for _, r := range sortedKeys(c.obligs) {
		fmt.Printf("  %-28s %d\n", r, c.obligs[r])
	}
	if len(open) == 0 {
		return 0
	}
	var b strings.Builder
	for _, v := range open {
		fmt.Fprintf(&b, "%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
		if v.Path != "" {
			fmt.Fprintf(&b, "    path: %s\n", v.Path)
		}
	}
	fmt.Print(b.String())
	os.WriteFile(replay, []byte(b.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, replay)
	return 1
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
