package fw

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// known reads the known-findings file: lines
//
//	known: property=<id> case=<fixed case name> <what fails>
func known(root, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property="+id+" case=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" case=")
		name, desc, _ := strings.Cut(rest, " ")
		m[name] = desc
	}
	return m
}

// Main runs the check of one property and returns the exit code.
func Main(root, id string) int {
	p := Props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	start := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	total := len(p.Fixed) + n
	ev := filepath.Join(root, "evidence")
	os.MkdirAll(ev, 0o755)
	rep := filepath.Join(ev, "replay")
	os.MkdirAll(rep, 0o755)
	tmp, err := os.MkdirTemp("", "phxmon-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)

	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	if workers > 8 {
		workers = 8
	}
	// Shards of consecutive cases, handed out dynamically.
	shard := (n + workers*4 - 1) / (workers * 4)
	if shard < 1 {
		shard = 1
	}
	type job struct{ lo, hi int }
	var jobs []job
	if len(p.Fixed) > 0 {
		fs := (len(p.Fixed) + workers - 1) / workers
		for lo := 0; lo < len(p.Fixed); lo += fs {
			jobs = append(jobs, job{lo, min(lo+fs, len(p.Fixed))})
		}
	}
	for lo := len(p.Fixed); lo < total; lo += shard {
		jobs = append(jobs, job{lo, min(lo+shard, total)})
	}
	kn := known(root, id)
	var mu sync.Mutex
	agg := Result{Counts: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	var viol []Failure
	knownHit := map[string]string{}
	inconcl := ""
	stop := false
	var procs []*exec.Cmd
	addFail := func(f Failure) {
		if f.Fixed != "" {
			if d, ok := kn[f.Fixed]; ok {
				knownHit[f.Fixed] = d
				return
			}
		}
		viol = append(viol, f)
		stop = true
		for _, c := range procs {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
	}
	exe, _ := os.Executable()
	seq := 0
	var crashes int
	run := func(lo, hi, mul int) (code int, killed bool, cur int, res Result, stderr string) {
		mu.Lock()
		seq++
		out := filepath.Join(tmp, fmt.Sprintf("w%d", seq))
		work := filepath.Join(tmp, fmt.Sprintf("d%d", seq))
		os.MkdirAll(work, 0o755)
		cmd := exec.Command(exe, "worker", id, fmt.Sprint(seed), tier, fmt.Sprint(lo), fmt.Sprint(hi), out, fmt.Sprint(mul))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "MON_ROOT="+root, "MON_WORK="+work)
		ef, _ := os.Create(out + ".err")
		cmd.Stdout, cmd.Stderr = ef, ef
		if stop {
			mu.Unlock()
			return -2, true, lo, res, ""
		}
		err := cmd.Start()
		procs = append(procs, cmd)
		mu.Unlock()
		if err != nil {
			return -1, false, lo, res, err.Error()
		}
		err = cmd.Wait()
		ef.Close()
		b, _ := os.ReadFile(out + ".err")
		if len(b) > 200000 {
			b = b[:200000]
		}
		stderr = string(b)
		cb, _ := os.ReadFile(out + ".cur")
		cur, e2 := strconv.Atoi(strings.TrimSpace(string(cb)))
		if e2 != nil {
			cur = lo
		}
		code = cmd.ProcessState.ExitCode()
		if code == 0 {
			rb, e := os.ReadFile(out)
			if e != nil || json.Unmarshal(rb, &res) != nil {
				code = 98
			}
		}
		os.Remove(out)
		os.Remove(out + ".err")
		os.Remove(out + ".cur")
		os.RemoveAll(work)
		return
	}
	merge := func(res Result) {
		mu.Lock()
		defer mu.Unlock()
		agg.Cases += res.Cases
		for k, v := range res.Counts {
			agg.Counts[k] += v
		}
		for _, h := range res.Distinct {
			if len(distinct) < 2000000 {
				distinct[h] = struct{}{}
			}
		}
		if len(agg.Samples) < 4 {
			agg.Samples = append(agg.Samples, res.Samples...)
		}
		for _, f := range res.Fails {
			addFail(f)
		}
	}
	ch := make(chan job, len(jobs))
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				lo := j.lo
				for lo < j.hi {
					mu.Lock()
					s := stop
					mu.Unlock()
					if s {
						return
					}
					code, killed, cur, res, errs := run(lo, j.hi, 1)
					if code == 0 {
						merge(res)
						break
					}
					mu.Lock()
					s = stop
					mu.Unlock()
					if killed || s {
						return
					}
					// Re-run the finished prefix for its counts? The prefix is
					// deterministic; only its verdicts matter and it was clean
					// or its failures were never written, so run it again.
					if cur > lo {
						c2, _, _, r2, _ := run(lo, cur, 1)
						if c2 == 0 {
							merge(r2)
						}
					}
					name := ""
					if cur < len(p.Fixed) {
						name = p.Fixed[cur].Name
					}
					what := ""
					switch code {
					case 97:
						c3, _, _, r3, e3 := run(cur, cur+1, 2)
						if c3 == 97 {
							what = "case does not terminate\n" + head(e3, 12000)
						} else if c3 == 0 {
							merge(r3)
						} else {
							what = "worker died\n" + head(e3, 12000)
						}
					case 66:
						what = "data race\n" + head(errs, 12000)
					case 98:
						mu.Lock()
						inconcl = "worker could not run: " + head(errs, 500)
						mu.Unlock()
					case -1: // killed by a signal: confirm once
						c3, _, _, r3, e3 := run(cur, cur+1, 1)
						if c3 == 0 {
							merge(r3)
						} else if c3 == 66 {
							what = "data race\n" + head(e3, 12000)
						} else if c3 == -1 {
							mu.Lock()
							if !stop {
								inconcl = "worker killed by a signal twice at case " + fmt.Sprint(cur) + ": " + head(e3, 500)
							}
							mu.Unlock()
						} else {
							what = "worker died\n" + head(e3, 12000)
						}
					default:
						what = fmt.Sprintf("process crashed (exit %d)\n%s", code, head(errs, 12000))
					}
					mu.Lock()
					if what != "" {
						addFail(Failure{Case: cur, Fixed: name, Msg: what})
					}
					crashes++
					if crashes > 20 || inconcl != "" {
						stop = true
					}
					mu.Unlock()
					lo = cur + 1
				}
			}
		}()
	}
	wg.Wait()

	// Verdict.
	code := 0
	for name, d := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (case %s)\n", id, d, name)
	}
	if len(viol) > 0 {
		f := viol[0]
		path := filepath.Join(rep, fmt.Sprintf("%s-%d.txt", id, f.Case))
		if f.Fixed != "" {
			path = filepath.Join(rep, fmt.Sprintf("%s-%s.txt", id, f.Fixed))
		}
		txt := fmt.Sprintf("property %s\nseed %d case %d %s\nreplay: VERIF_SEED=%d bash /verif/run.sh replay %s %d\n\n%s\n\n--- steps ---\n%s\n", id, seed, f.Case, f.Fixed, seed, id, f.Case, f.Msg, f.Trace)
		os.WriteFile(path, []byte(txt), 0o644)
		fmt.Printf("%s\n", head(f.Msg, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	} else if inconcl != "" {
		fmt.Println("INCONCLUSIVE:", inconcl)
		code = 3
	} else {
		for k, v := range p.Need {
			if agg.Counts[k] < v {
				fmt.Printf("INCONCLUSIVE: only %d %s observed (need %d)\n", agg.Counts[k], k, v)
				code = 3
			}
		}
	}
	lvl := p.Level
	if lvl == "" {
		lvl = "exploration"
	}
	if len(agg.Samples) > 4 {
		agg.Samples = agg.Samples[:4]
	}
	cov := map[string]any{
		"evaluations": agg.Cases, "distinct_nontrivial": len(distinct), "rule": p.Rule,
		"samples": agg.Samples, "events": agg.Counts, "race_detector": p.Race,
		"fixed_histories": len(p.Fixed), "known_findings_hit": len(knownHit),
	}
	if p.Assume == nil {
		p.Assume = []string{}
	}
	evd := map[string]any{"property": id, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viol)}
	b, _ := json.MarshalIndent(evd, "", " ")
	if err := os.WriteFile(filepath.Join(ev, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d distinct, %v, %.1fs\n", id, tier, agg.Cases, len(distinct), agg.Counts, time.Since(start).Seconds())
	return code
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
