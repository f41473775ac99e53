package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type failure struct{ msg string }

// failf aborts the check: an anchor is missing or the analysis cannot decide. It is reported as a violation because an
// undecided obligation is never a pass.
func failf(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

// Ob is one obligation: one rule applied to one construct.
type Ob struct {
	Key    string // rule + construct, free of line numbers
	Rule   string
	Pos    string
	OK     bool
	Detail string
}

type Report struct {
	Prop        string
	Obs         []Ob
	Counts      map[string]int
	Assumptions []string
	Rules       []string
	seen        map[string]int
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Counts: map[string]int{}, seen: map[string]int{}}
}

// ob records an obligation.
func (r *Report) ob(ok bool, rule, construct, pos, detail string) {
	key := rule + " @ " + construct
	r.seen[key]++
	r.Obs = append(r.Obs, Ob{Key: key, Rule: rule, Pos: pos, OK: ok, Detail: detail})
}

func (r *Report) count(name string, n int) { r.Counts[name] += n }

// atLeast fails the check when fewer constructs than expected were found: a rule that matches nothing proves nothing.
func (r *Report) atLeast(name string, min int) {
	n := r.Counts[name]
	r.ob(n >= min, "instances:"+name, name, "-", fmt.Sprintf("found %d instances of %s, at least %d expected", n, name, min))
}

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // finding | fixed
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(dir string) []known {
	var ks []known
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		failf("known_findings.json: %v", err)
	}
	return ks
}

// finish prints the verdict, writes the evidence file and returns the exit code.
func (r *Report) finish(dir, tier string, seed int, start time.Time, level string, explanation string) int {
	ks := loadKnown(dir)
	type v struct {
		o    Ob
		what string
	}
	var viol []Ob
	var kf []v
	ok := 0
	for _, o := range r.Obs {
		if o.OK {
			ok++
			continue
		}
		listed := false
		for _, k := range ks {
			if k.Status == "finding" && k.Property == r.Prop && k.Key == o.Key {
				kf = append(kf, v{o, k.What})
				listed = true
				break
			}
		}
		if !listed {
			viol = append(viol, o)
		}
	}
	ev := filepath.Join(dir, "evidence")
	_ = os.MkdirAll(ev, 0o755)
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Key < viol[j].Key })
	code := 0
	replay := filepath.Join(ev, r.Prop+".replay.txt")
	_ = os.Remove(replay)
	printed := map[string]bool{}
	for _, k := range kf {
		l := fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.Prop, k.what)
		if !printed[l] {
			fmt.Println(l)
			printed[l] = true
		}
	}
	if len(viol) > 0 {
		code = 1
		var sb strings.Builder
		shown := 0
		for i, o := range viol {
			if i == 60 {
				// the rest is in the replay file
				shown = sb.Len()
			}
			fmt.Fprintf(&sb, "%s: %s\n    rule/construct: %s\n    %s\n", o.Pos, r.Prop, o.Key, o.Detail)
		}
		fmt.Fprintf(&sb, "\nreplay: cd /verif && ./run.sh %s\n", r.Prop)
		_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
		if shown > 0 {
			fmt.Print(sb.String()[:shown])
			fmt.Printf("... and %d more, see the replay file\n", len(viol)-60)
		} else {
			fmt.Print(sb.String())
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	}
	var names []string
	for n := range r.Counts {
		names = append(names, n)
	}
	sort.Strings(names)
	var constructs []string
	for _, o := range r.Obs {
		constructs = append(constructs, o.Key)
	}
	sort.Strings(constructs)
	distinct := 0
	var uniq []string
	for i, c := range constructs {
		if i == 0 || constructs[i-1] != c {
			distinct++
			uniq = append(uniq, c)
		}
	}
	cov := map[string]interface{}{
		"obligations":          len(r.Obs),
		"discharged":           ok,
		"distinct_obligations": distinct,
		"known_findings":       len(kf),
		"analysed":             r.Counts,
		"rules":                r.Rules,
		"explanation":          explanation,
		"checker_cmd":          "./run.sh " + r.Prop,
		"trusted_base":         []string{"go/types and golang.org/x/tools/go/ssa v0.52.0", "the checker in /verif/checker"},
		"constructs":           uniq,
	}
	evd := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": r.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(evd, "", " ")
	if err := os.WriteFile(filepath.Join(ev, r.Prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)\n", r.Prop, len(r.Obs), ok, len(kf), len(viol), time.Since(start).Seconds())
	return code
}
