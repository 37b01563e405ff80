package main

// Deciding one property: all the scenarios and the rules that bear on it, the
// report and the evidence file.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ruleReport is what the rules on the syntax and the SSA form fill in
type ruleReport struct {
	prop    string
	alarms  []AlarmRec
	obl     map[string]int
	samples []string
	funcs   map[string]bool
}

func (r *ruleReport) oblige(what, sample string) {
	r.obl[r.prop+" "+what]++
	if sample != "" && len(r.samples) < 12 {
		r.samples = append(r.samples, what+": "+sample)
	}
}

func (r *ruleReport) bad(rule, where, format string, args ...interface{}) {
	r.alarms = append(r.alarms, AlarmRec{Prop: r.prop, Rule: rule, Where: where, Msg: fmt.Sprintf(format, args...)})
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

var assumptions = []string{
	"the Go compiler and runtime, the standard library and gonum behave as documented; their functions are modelled, not analysed",
	"one tracked column of each kind stands for any column (names are compared only for equality); lengths, row numbers and cell values are symbolic",
	"a construct the interpreter cannot resolve makes the affected paths undecided (counted below), it raises no alarm",
}

// funcOf: the function part of a position "file:line in func"
func funcOf(where string) string {
	if i := strings.LastIndex(where, " in "); i >= 0 {
		return where[i+4:]
	}
	return where
}

// knownFindings reads the list of findings that are recorded but not repaired
func knownFindings(path string) map[string]string {
	r := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=Cxx key=<rule>|<function> :: text
		p := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "finding:")), " :: ", 2)
		q := strings.SplitN(p[0], " key=", 2)
		if len(q) != 2 || len(p) != 2 {
			continue
		}
		r[strings.TrimPrefix(q[0], "property=")+"|"+q[1]] = p[1]
	}
	return r
}

func check() int {
	t0 := time.Now()
	prop := *flProp
	evDir := *flEv
	if evDir == "" {
		evDir = "/verif/evidence"
	}
	os.MkdirAll(evDir, 0o755)
	budget := 780 * time.Second
	if *flTier == "thorough" {
		budget = 850 * time.Second
	}
	deadline := t0.Add(budget)
	var alarms []AlarmRec
	obl, dead, ext := map[string]int{}, map[string]int{}, map[string]int{}
	funcs := map[string]bool{}
	var steps, outs, calls, nScn, gaveUp, panics int
	var samples, undecidedScn, timeouts []string

	w, err := loadWorld(*flRepo)
	if err != nil {
		alarms = append(alarms, AlarmRec{Prop: prop, Rule: "load", Where: "the module", Msg: err.Error()})
	} else {
		// rules on the syntax and the SSA form
		rep := &ruleReport{prop: prop, obl: obl, funcs: funcs}
		for _, ru := range allRules() {
			if ru.prop != prop {
				continue
			}
			func() {
				defer func() {
					if x := recover(); x != nil {
						if a, ok := x.(anchorErr); ok {
							rep.bad("anchor", "the module", "%s", a.msg)
						} else {
							panics++
							undecidedScn = append(undecidedScn, fmt.Sprintf("rule %s: %v", ru.name, x))
						}
					}
				}()
				ru.run(w, rep)
			}()
		}
		alarms = append(alarms, rep.alarms...)
		samples = append(samples, rep.samples...)
		// scenarios
		sns := allScenarios()
		var todo []int
		for i, s := range sns {
			if s.bears(prop) {
				todo = append(todo, i)
			}
		}
		if len(todo) > 0 {
			runScenarios(todo, prop, deadline, func(r ScnResult) {
				nScn++
				for _, a := range r.Alarms {
					if a.Prop == prop {
						alarms = append(alarms, a)
					}
				}
				switch {
				case r.Anchor:
					alarms = append(alarms, AlarmRec{Prop: prop, Rule: "anchor", Where: "the module", Msg: r.Panic})
				case r.Panic == "out of time":
					timeouts = append(timeouts, sns[r.I].name)
				case r.Panic != "":
					panics++
					undecidedScn = append(undecidedScn, sns[r.I].name+": "+strings.SplitN(r.Panic, "\n", 2)[0])
				}
				if r.GaveUp {
					gaveUp++
					undecidedScn = append(undecidedScn, r.Name+": budget exhausted")
				}
				steps += r.Steps
				outs += r.Outcomes
				calls += r.Calls
				for k, v := range r.Obl {
					obl[k] += v
				}
				for k, v := range r.Dead {
					dead[k] += v
				}
				for k, v := range r.Ext {
					ext[k] += v
				}
				for _, f := range r.Funcs {
					funcs[f] = true
				}
				if len(samples) < 20 && r.Outcomes > 0 && nScn%7 == 0 {
					samples = append(samples, fmt.Sprintf("scenario %s: %d outcomes, %d steps, %d functions interpreted", r.Name, r.Outcomes, r.Steps, len(r.Funcs)))
				}
			})
			if panics == len(todo) {
				alarms = append(alarms, AlarmRec{Prop: prop, Rule: "internal", Where: "the checker", Msg: "no scenario could be analysed"})
			}
		}
		n := 0
		for k, v := range obl {
			if strings.HasPrefix(k, prop+" ") {
				n += v
			}
		}
		if n < floors[prop] || n == 0 {
			alarms = append(alarms, AlarmRec{Prop: prop, Rule: "vacuous", Where: "the module",
				Msg: fmt.Sprintf("only %d obligations of this property were found in the code (expected at least %d): the construct it is about is gone or cannot be recognised", n, floors[prop])})
		}
	}

	// report
	seen := map[string]bool{}
	var uniq []AlarmRec
	for _, a := range alarms {
		if seen[a.Rule+"|"+a.Where] {
			continue
		}
		seen[a.Rule+"|"+a.Where] = true
		uniq = append(uniq, a)
	}
	sort.Slice(uniq, func(i, j int) bool { return uniq[i].key() < uniq[j].key() })
	known := knownFindings(filepath.Join(evDir, "..", "known_findings.txt"))
	var viol []AlarmRec
	shown := map[string]bool{}
	for _, a := range uniq {
		k := prop + "|" + a.Rule + "|" + funcOf(a.Where)
		if t, ok := known[k]; ok {
			if !shown[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, t)
			}
			shown[k] = true
			continue
		}
		viol = append(viol, a)
	}
	oblN := 0
	own := map[string]int{}
	for k, v := range obl {
		if strings.HasPrefix(k, prop+" ") {
			own[strings.TrimPrefix(k, prop+" ")] = v
			oblN += v
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_TIER") == "thorough" {
		*flTier = "thorough"
	}
	undec := 0
	for k, v := range dead {
		if strings.HasPrefix(k, "undecided") {
			undec += v
		}
	}
	fl := sortedSet(funcs)
	cov := map[string]interface{}{
		"explanation": explain[prop],
		"rule":        "an obligation is one place and path at which the rule of the property was evaluated; a violation is a definite contradiction at a named construct",
		"obligations": oblN, "obligations_by_rule": own,
		"scenarios": nScn, "outcomes": outs, "abstract_steps": steps, "calls_interpreted": calls,
		"functions_analysed": len(fl), "functions": fl,
		"undecided_alarms_suppressed": undec, "scenarios_undecided": undecidedScn, "scenarios_out_of_time": timeouts,
		"external_calls": ext, "samples": samples,
	}
	ev := evidence{prop, *flTier, seed, "other", cov, assumptions, time.Since(t0).Seconds(), len(viol)}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	rp := filepath.Join(evDir, prop+".violations.txt")
	os.Remove(rp)
	if len(viol) > 0 {
		var sb strings.Builder
		for _, a := range viol {
			fmt.Fprintf(&sb, "%s [%s] %s\n    %s\n", a.Prop, a.Rule, a.Where, a.Msg)
			if a.Scn != "" {
				fmt.Fprintf(&sb, "    scenario %s", a.Scn)
				if a.Path != "" {
					fmt.Fprintf(&sb, ", call path %s", a.Path)
				}
				sb.WriteString("\n")
			}
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	fmt.Printf("property %s: %d obligations in %d functions, %d scenarios with %d outcomes, no violation (%.0f s)\n", prop, oblN, len(fl), nScn, outs, time.Since(t0).Seconds())
	return 0
}

func sortedSet(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
