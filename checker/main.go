package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

// Result of one scenario, as a worker reports it
type ScnResult struct {
	I        int
	Name     string
	Alarms   []AlarmRec
	Outcomes int
	Steps    int
	Calls    int
	Funcs    []string
	Blocks   int
	Obl      map[string]int
	Dead     map[string]int
	Ext      map[string]int
	GaveUp   bool
	Panic    string
	Anchor   bool
	Seconds  float64
}

type AlarmRec struct {
	Prop, Rule, Where, Msg, Scn, Path string
}

func (a AlarmRec) key() string { return a.Prop + "|" + a.Rule + "|" + a.Where }

var (
	flRepo   = flag.String("repo", "/repo", "tree to analyse")
	flProp   = flag.String("prop", "", "property to decide")
	flTier   = flag.String("tier", "quick", "quick or thorough")
	flEv     = flag.String("evidence", "", "directory of the evidence files")
	flScn    = flag.String("scn", "", "debug: run the scenarios whose name contains this")
	flTrace  = flag.Bool("trace", false, "debug")
	flProf   = flag.String("prof", "", "debug: CPU profile")
	flWorker = flag.Bool("worker", false, "internal: read scenario numbers from stdin")
	flJ      = flag.Int("j", runtime.NumCPU(), "workers")
	flList   = flag.Bool("list", false, "debug: list the scenarios")
	flAll    = flag.Bool("all", false, "debug: every property")
	flV      = flag.Bool("v", false, "debug: times")
	flSteps  = flag.Int("steps", 0, "debug: step budget")
)

func main() {
	flag.StringVar(&dbgFn, "fn", "", "debug: print the loop heads of this function")
	flag.Parse()
	debug.SetGCPercent(400)
	if *flProf != "" {
		f, _ := os.Create(*flProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch {
	case *flList:
		for i, s := range allScenarios() {
			fmt.Println(i, s.name, s.props)
		}
	case *flWorker:
		worker()
	case *flScn != "" || *flAll:
		debugRun()
	case *flProp != "":
		os.Exit(check())
	default:
		flag.Usage()
		os.Exit(2)
	}
}

func runOne(w *World, i int, sn *Scenario, prop string) (r ScnResult) {
	t := time.Now()
	r = ScnResult{I: i, Name: sn.name}
	st := newStats()
	defer func() {
		if x := recover(); x != nil {
			if a, ok := x.(anchorErr); ok {
				r.Anchor = true
				r.Panic = a.msg
			} else {
				r.Panic = fmt.Sprint(x)
				if *flTrace || *flScn != "" {
					r.Panic += "\n" + string(debug.Stack())
				}
			}
		}
		r.Seconds = time.Since(t).Seconds()
	}()
	for _, a := range w.run(sn, prop, st, *flTrace) {
		r.Alarms = append(r.Alarms, AlarmRec{a.prop, a.rule, a.where, a.msg, a.scn, a.path})
	}
	r.Outcomes, r.Steps, r.Calls = st.outcomes, st.steps, st.calls
	for f := range st.funcs {
		r.Funcs = append(r.Funcs, fnName(f))
	}
	sort.Strings(r.Funcs)
	r.Blocks = len(st.blocks)
	r.Obl, r.Dead, r.Ext = st.obl, st.dead, st.ext
	r.GaveUp = len(st.giveUps) > 0
	return r
}

func worker() {
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	w, err := loadWorld(*flRepo)
	if err != nil {
		enc.Encode(ScnResult{I: -1, Panic: err.Error()})
		out.Flush()
		return
	}
	sns := allScenarios()
	in := bufio.NewReader(os.Stdin)
	for {
		var i int
		if _, err := fmt.Fscanln(in, &i); err != nil {
			return
		}
		enc.Encode(runOne(w, i, sns[i], *flProp))
		out.Flush()
	}
}

// runScenarios distributes scenarios over worker processes
func runScenarios(todo []int, prop string, deadline time.Time, f func(ScnResult)) {
	ch := make(chan int, len(todo))
	for _, i := range todo {
		ch <- i
	}
	close(ch)
	var mu sync.Mutex
	var wg sync.WaitGroup
	self, _ := os.Executable()
	n := *flJ
	if n > len(todo) {
		n = len(todo)
	}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				args := []string{"-worker", "-repo", *flRepo, "-tier", *flTier, "-prop", prop, "-steps", fmt.Sprint(*flSteps)}
				c := exec.Command(self, args...)
				c.Stderr = os.Stderr
				in, _ := c.StdinPipe()
				po, _ := c.StdoutPipe()
				if err := c.Start(); err != nil {
					mu.Lock()
					f(ScnResult{I: -1, Panic: err.Error()})
					mu.Unlock()
					return
				}
				dec := json.NewDecoder(bufio.NewReaderSize(po, 1<<20))
				broken := false
				for i := range ch {
					if time.Now().After(deadline) {
						mu.Lock()
						f(ScnResult{I: i, Panic: "out of time"})
						mu.Unlock()
						continue
					}
					fmt.Fprintln(in, i)
					var r ScnResult
					res := make(chan error, 1)
					go func() { res <- dec.Decode(&r) }()
					var err error
					select {
					case err = <-res:
					case <-time.After(time.Until(deadline)):
						err = fmt.Errorf("out of time")
						c.Process.Kill()
						<-res
					}
					if err != nil {
						r = ScnResult{I: i, Panic: "worker: " + err.Error()}
						broken = true
					}
					if r.I == -1 {
						r.I = i
						broken = true
					}
					mu.Lock()
					f(r)
					mu.Unlock()
					if broken {
						break
					}
				}
				in.Close()
				io.Copy(io.Discard, po)
				c.Wait()
				if !broken {
					return
				}
			}
		}()
	}
	wg.Wait()
}

func debugRun() {
	t0 := time.Now()
	var todo []int
	sns := allScenarios()
	for i, s := range sns {
		if strings.Contains(s.name, *flScn) && (*flProp == "" || s.bears(*flProp)) {
			todo = append(todo, i)
		}
	}
	seen := map[string]bool{}
	obl, dead, ext := map[string]int{}, map[string]int{}, map[string]int{}
	funcs := map[string]bool{}
	var steps, outs int
	var tot float64
	show := func(r ScnResult) {
		for _, a := range r.Alarms {
			if !seen[a.key()] || *flTrace {
				seen[a.key()] = true
				fmt.Printf("%s [%s] %s\n    %s\n    scenario %s, path %s\n", a.Prop, a.Rule, a.Where, a.Msg, a.Scn, a.Path)
			}
		}
		if r.Panic != "" {
			fmt.Println("PANIC", sns[r.I].name, r.Panic)
		}
		if r.GaveUp {
			fmt.Println("GAVE UP", r.Name, r.Seconds)
		}
		if r.Seconds > 5 || *flV {
			fmt.Printf("    %s %.1fs %d outcomes %d steps\n", r.Name, r.Seconds, r.Outcomes, r.Steps)
		}
		steps += r.Steps
		outs += r.Outcomes
		tot += r.Seconds
		for k, v := range r.Obl {
			obl[k] += v
		}
		for k, v := range r.Dead {
			dead[k] += v
		}
		for k, v := range r.Ext {
			ext[k] += v
		}
		for _, f := range r.Funcs {
			funcs[f] = true
		}
	}
	if *flJ <= 1 || len(todo) == 1 || *flTrace || *flProf != "" {
		w, err := loadWorld(*flRepo)
		if err != nil {
			fmt.Println(err)
			return
		}
		for _, i := range todo {
			show(runOne(w, i, sns[i], *flProp))
		}
	} else {
		runScenarios(todo, *flProp, time.Now().Add(time.Hour), show)
	}
	fmt.Printf("%d scenarios, %d outcomes, %d steps, %d functions, %.1fs CPU, %.1fs\n", len(todo), outs, steps, len(funcs), tot, time.Since(t0).Seconds())
	if *flV && *flScn == "" {
		if w, err := loadWorld(*flRepo); err == nil {
			for _, f := range w.unseen(funcs) {
				fmt.Println("   never interpreted:", f)
			}
		}
	}
	for _, m := range []map[string]int{obl, dead, ext} {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("  ", k, m[k])
		}
		fmt.Println()
	}
}

func (s *Scenario) bears(p string) bool {
	for _, x := range s.props {
		if x == p {
			return true
		}
	}
	return false
}
