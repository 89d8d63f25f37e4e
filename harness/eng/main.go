package eng

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Scenario string `json:"scenario"`
		Sig      string `json:"sig"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

// Main is the entry point of every harness binary.
func Main(props ...*Prop) {
	var (
		id, tier, evidence, knownPath, work, scenario, choices, out, mm string
		workers, index                                                  int
		seed                                                            int
		limit                                                           time.Duration
		replayFile                                                      string
	)
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	fs.StringVar(&id, "prop", "", "")
	fs.StringVar(&tier, "tier", "quick", "")
	fs.StringVar(&evidence, "evidence", "", "")
	fs.StringVar(&knownPath, "known", "", "")
	fs.StringVar(&work, "work", "", "")
	fs.StringVar(&scenario, "scenario", "", "")
	fs.StringVar(&choices, "choices", "", "")
	fs.StringVar(&out, "out", "", "")
	fs.StringVar(&mm, "mm", "", "")
	fs.StringVar(&replayFile, "replay", "", "")
	fs.IntVar(&workers, "workers", 8, "")
	fs.IntVar(&index, "index", -1, "")
	fs.IntVar(&seed, "seed", 1, "")
	fs.DurationVar(&limit, "limit", 0, "")
	mode := os.Args[1]
	loud := false
	fs.BoolVar(&loud, "loud", false, "")
	fs.Parse(os.Args[2:])
	self := os.Args[0]
	// The code under test sees a command line of its own.
	os.Args = []string{"verif-harness"}
	var p *Prop
	for _, q := range props {
		if q.ID == id {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property here:", id)
		os.Exit(3)
	}
	thorough := tier == "thorough"
	known, whats := map[string]bool{}, map[string]string{}
	if knownPath != "" {
		var kf knownFile
		if b, err := os.ReadFile(knownPath); err == nil {
			if err := json.Unmarshal(b, &kf); err != nil {
				fmt.Fprintln(os.Stderr, "known findings:", err)
				os.Exit(3)
			}
		}
		for _, f := range kf.Findings {
			if f.Property == id {
				known[f.Scenario+"\x00"+f.Sig] = true
				whats[f.Scenario+"\x00"+f.Sig] = f.What
			}
		}
	}
	parse := func(s string) (cs []int) {
		for _, x := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
			n, _ := strconv.Atoi(x)
			cs = append(cs, n)
		}
		return
	}
	switch mode {
	case "worker":
		WorkerMain(p, thorough, index, workers, limit, out, mm, known)
		return
	case "probe":
		if _, err := os.ReadDir("/proc/self/fd"); err != nil || os.Geteuid() == 0 {
			os.Exit(3)
		}
		return
	case "replay":
		probe(self, id)
		if replayFile != "" {
			b, err := os.ReadFile(replayFile)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			var r struct {
				Failure Failure `json:"failure"`
			}
			json.Unmarshal(b, &r)
			scenario = r.Failure.Scenario
			for _, c := range r.Failure.Choices {
				choices += fmt.Sprint(c, ",")
			}
			if contained {
				re := exec.Command(self, "replay", "-loud", "-prop", id, "-tier", tier, "-scenario", scenario, "-choices", choices)
				re.Stdout, re.Stderr = os.Stdout, os.Stderr
				err := runWithKill(re, 600*time.Second)
				if ee, ok := err.(*exec.ExitError); ok {
					os.Exit(ee.ExitCode())
				} else if err != nil {
					os.Exit(3)
				}
				os.Exit(0)
			}
		} else if !loud {
			quiet()
		}
		f, found := ReplayOne(p, thorough, scenario, parse(choices))
		runExits()
		if !found {
			fmt.Fprintln(realStdout, "no such scenario")
			os.Exit(3)
		}
		if f == nil {
			fmt.Fprintln(realStdout, "execution passed")
			os.Exit(0)
		}
		b, _ := json.MarshalIndent(f, "", " ")
		fmt.Fprintln(realStdout, string(b))
		os.Exit(1)
	}
	// mode "check"
	start := time.Now()
	workDir = work
	probe(self, id)
	if limit == 0 {
		limit = 240 * time.Second
		if thorough {
			limit = 780 * time.Second
		}
	}
	scs := p.Scenarios(thorough)
	results := make([][]*Stats, workers)
	crashes := make([]*Failure, workers)
	notes := []string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			outf := filepath.Join(work, fmt.Sprintf("w%d.json", i))
			mmf := filepath.Join(work, fmt.Sprintf("w%d.mm", i))
			cmd := exec.Command(self, "worker", "-prop", id, "-tier", tier, "-index", fmt.Sprint(i), "-workers", fmt.Sprint(workers),
				"-limit", limit.String(), "-out", outf, "-mm", mmf, "-known", knownPath, "-seed", fmt.Sprint(seed))
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			err := runWithKill(cmd, limit+90*time.Second)
			b, rerr := os.ReadFile(outf)
			if rerr == nil {
				var st []*Stats
				if json.Unmarshal(b, &st) == nil {
					results[i] = st
					return
				}
			}
			// The worker died inside the code under test: which execution was it?
			msg := fmt.Sprintf("worker %d ended without a result: %v; %s", i, err, clip(stderr.String(), 1500))
			mb, merr := os.ReadFile(mmf)
			if merr == nil && len(mb) >= 8 {
				sci := int(binary.LittleEndian.Uint32(mb))
				n := int(binary.LittleEndian.Uint32(mb[4:]))
				if sci < len(scs) {
					var cs []int
					var txt []string
					for k := 0; k < n && 8+2*k+2 <= len(mb); k++ {
						c := int(binary.LittleEndian.Uint16(mb[8+2*k:]))
						cs = append(cs, c)
						txt = append(txt, fmt.Sprint(c))
					}
					re := exec.Command(self, "replay", "-prop", id, "-tier", tier, "-scenario", scs[sci].Name, "-choices", strings.Join(txt, ","))
					var o bytes.Buffer
					re.Stdout, re.Stderr = &o, &o
					rerr := runWithKill(re, 120*time.Second)
					if rerr != nil && !strings.Contains(rerr.Error(), "killed") {
						f := &Failure{Scenario: scs[sci].Name, Sig: "crash of the process", Choices: cs, Count: 1,
							Msg: "the process under test dies: " + rerr.Error() + ": " + clip(o.String(), 1500)}
						mu.Lock()
						crashes[i] = f
						mu.Unlock()
						return
					}
				}
			}
			mu.Lock()
			notes = append(notes, msg)
			mu.Unlock()
		}()
	}
	wg.Wait()
	// merge
	tot := make([]*Stats, len(scs))
	exhaustive := true
	var states, execs, ops, cps int64
	var failures []*Failure
	var samples []string
	for si := range scs {
		tot[si] = &Stats{Scenario: scs[si].Name, Bound: scs[si].Bound}
		set := map[uint64]struct{}{}
		for i := range results {
			if results[i] == nil {
				exhaustive = false
				continue
			}
			st := results[i][si]
			tot[si].Executions += st.Executions
			tot[si].Skipped += st.Skipped
			tot[si].Seconds += st.Seconds
			tot[si].Ops += st.Ops
			tot[si].ChoicePoints += st.ChoicePoints
			if st.Share > tot[si].Share {
				tot[si].Share = st.Share
			}
			if st.MaxDepth > tot[si].MaxDepth {
				tot[si].MaxDepth = st.MaxDepth
			}
			if st.Capped != "" {
				tot[si].Capped = st.Capped
				exhaustive = false
			}
			if len(tot[si].Samples) < 1 {
				tot[si].Samples = append(tot[si].Samples, st.Samples...)
			}
			for _, f := range st.Failures {
				dup := false
				for _, g := range failures {
					if g.Scenario == f.Scenario && g.Sig == f.Sig {
						g.Count += f.Count
						if less(f.Choices, g.Choices) {
							g.Choices, g.Msg, g.Desc = f.Choices, f.Msg, f.Desc
						}
						dup = true
					}
				}
				if !dup {
					failures = append(failures, f)
				}
			}
			b, _ := os.ReadFile(filepath.Join(work, fmt.Sprintf("w%d.json.states.%d", i, si)))
			for k := 0; k+8 <= len(b); k += 8 {
				set[binary.LittleEndian.Uint64(b[k:])] = struct{}{}
			}
		}
		tot[si].States = int64(len(set))
		states += tot[si].States
		execs += tot[si].Executions
		ops += tot[si].Ops
		cps += tot[si].ChoicePoints
		for _, s := range tot[si].Samples {
			if len(samples) < 12 {
				samples = append(samples, scs[si].Name+": "+clip(s, 400))
			}
		}
		tot[si].Samples = nil
	}
	for _, c := range crashes {
		if c != nil {
			failures = append(failures, c)
		}
	}
	// known findings and violations
	violations := 0
	var first *Failure
	for _, f := range failures {
		k := f.Scenario + "\x00" + f.Sig
		if known[k] {
			fmt.Fprintf(realStdout, "KNOWN-FINDING: property=%s %s [%s]\n", id, whats[k], f.Sig)
			continue
		}
		if violations >= 8 {
			f.Runs = "not re-run, others were"
		} else if f.Sig != "crash of the process" {
			// re-run: the same choices must fail again
			fails := 0
			for r := 0; r < 5; r++ {
				var txt []string
				for _, c := range f.Choices {
					txt = append(txt, fmt.Sprint(c))
				}
				re := exec.Command(self, "replay", "-prop", id, "-tier", tier, "-scenario", f.Scenario, "-choices", strings.Join(txt, ","))
				err := runWithKill(re, 120*time.Second)
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
					fails++
				}
				if r == 1 && fails == 2 && len(failures) > 3 {
					break
				}
			}
			f.Runs = fmt.Sprintf("%d re-runs of these choices failed", fails)
			if fails == 0 {
				notes = append(notes, "not reproducible, not reported: "+f.Scenario+": "+f.Sig+": "+clip(f.Msg, 300))
				exhaustive = false
				continue
			}
		}
		violations++
		if first == nil {
			first = f
		}
		if violations <= 5 {
			fmt.Fprintf(realStdout, "violation in scenario %s (%d executions, %s):\n  %s\n  %s\n", f.Scenario, f.Count, f.Runs, f.Msg, f.Desc)
		}
	}
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   ops,
		"traces_validated_against_impl": execs,
		"samples":                       samples,
		"executions":                    execs,
		"unprivileged_workers":          contained,
		"choice_points":                 cps,
		"rule":                          p.Rule,
		"scenarios":                     tot,
		"exhaustive":                    exhaustive,
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	for _, s := range tot {
		s.Failures = nil
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": p.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Fprintf(realStdout, "property=%s tier=%s executions=%d states=%d operations=%d exhaustive=%v violations=%d wall=%.1fs\n",
		id, tier, execs, states, ops, exhaustive, violations, time.Since(start).Seconds())
	for _, n := range notes {
		fmt.Fprintln(realStdout, "note:", n)
	}
	if first != nil {
		rp := filepath.Join(filepath.Dir(evidence), "replay_"+id+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "failure": first, "rerun": "bash check.sh " + id + " replay " + rp}, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Fprintf(realStdout, "VIOLATION property=%s replay=%s\n", id, rp)
		os.Exit(1)
	}
}

func less(a, b []int) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// The code under test runs in processes of an unprivileged user, whose only files are
// its scratch directories, so that nothing it may do by mistake reaches the sandbox.
var (
	contained bool
	workDir   string
)

const nobody = 65534

func credential() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
}

// probe finds out whether processes can be started as that user here.
func probe(self, id string) {
	if os.Geteuid() != 0 {
		return
	}
	c := exec.Command(self, "probe", "-prop", id)
	c.Dir = "/"
	c.SysProcAttr = credential()
	contained = c.Run() == nil
}

func runWithKill(cmd *exec.Cmd, d time.Duration) error {
	if contained {
		cmd.SysProcAttr = credential()
		cmd.Env = append(os.Environ(), "HOME=/nonexistent")
	}
	if workDir != "" {
		cmd.Dir = workDir
	} else if contained {
		cmd.Dir = "/"
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	tm := time.AfterFunc(d, func() { cmd.Process.Kill() })
	defer tm.Stop()
	return cmd.Wait()
}
