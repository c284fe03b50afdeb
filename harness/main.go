// Command pbt runs the property-based checks of /verif against the go-mp4
// working tree it was compiled from.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Int64("seed", 1, "seed")
	fRoot   = flag.String("root", "/verif", "verif directory")
	fRepo   = flag.String("repo", "/repo", "repository under test")
	fWorker = flag.String("worker", "", "internal: sub-check to run")
	fOut    = flag.String("out", "", "internal: result file")
	fDir    = flag.String("scratch", "", "internal: scratch directory")
	fReplay = flag.String("replay", "", "replay file to re-run")
	fSub    = flag.String("sub", "", "only this sub-check")
	fScale  = flag.Float64("scale", 1, "scale case counts")
	fList   = flag.Bool("list", false, "list properties")
)

type task struct {
	sub    *Sub
	shard  int
	checks int
	seed   uint64
	out    string
	dir    string
	res    *workerResult
	err    string
}

func thoroughTier() bool { return *fTier == "thorough" }

func main() {
	testing.Init()
	flag.Parse()
	loadDict(*fRepo)
	if *fList {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *fReplay != "" {
		replay(*fReplay)
		return
	}
	p := props[*fProp]
	if p == nil {
		fmt.Println("unknown property", *fProp)
		os.Exit(3)
	}
	if *fWorker != "" {
		for i := range p.Subs {
			if p.Subs[i].Name == *fWorker {
				runWorker(p, &p.Subs[i], uint64(*fSeed), *fOut, *fDir)
				return
			}
		}
		os.Exit(3)
	}
	os.Exit(runProp(p))
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var rp struct {
		Property string
		violation
	}
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	p := props[rp.Property]
	if p == nil {
		os.Exit(3)
	}
	dir, _ := os.MkdirTemp("", "pbt-replay")
	defer os.RemoveAll(dir)
	for i := range p.Subs {
		if p.Subs[i].Name == rp.Sub {
			if rp.FailFile != "" {
				ff := filepath.Join(dir, "f.fail")
				os.WriteFile(ff, []byte(rp.FailFile), 0644)
				flag.Set("rapid.failfile", ff)
				flag.Set("rapid.checks", "1")
			}
			flag.Set("rapid.seed", strconv.FormatUint(rp.Seed, 10))
			runWorker(p, &p.Subs[i], rp.Seed, filepath.Join(dir, "r.json"), dir)
			b, _ := os.ReadFile(filepath.Join(dir, "r.json"))
			var res workerResult
			json.Unmarshal(b, &res)
			for _, v := range res.Violations {
				fmt.Printf("REPRODUCED property=%s sub=%s\n%s\n", rp.Property, v.Sub, v.Message)
				for k, x := range v.Case {
					fmt.Printf("  %s = %s\n", k, x)
				}
			}
			if len(res.Violations) > 0 {
				os.Exit(1)
			}
			fmt.Println("not reproduced")
			return
		}
	}
}

func runProp(p *Prop) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "pbt-"+p.ID+"-")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(scratch)
	nproc := 8
	var tasks []*task
	for i := range p.Subs {
		s := &p.Subs[i]
		if *fSub != "" && *fSub != s.Name {
			continue
		}
		n := s.N
		if thoroughTier() {
			m := s.Thorough
			if m == 0 {
				m = 20
			}
			n *= m
		} else if s.Quick > 0 {
			n = s.Quick
		} else {
			n *= 3
		}
		n = int(float64(n) * *fScale)
		if n < 1 {
			n = 1
		}
		shards := s.MaxShard
		if shards == 0 {
			shards = nproc
		}
		if n/shards < 10 {
			shards = (n + 9) / 10
		}
		for k := 0; k < shards; k++ {
			c := n / shards
			if k < n%shards {
				c++
			}
			if c == 0 {
				continue
			}
			h := mix(uint64(*fSeed)*0x9e3779b97f4a7c15 + uint64(i)*1000003 + uint64(k)*7919 + 12345)
			h &= 1<<62 - 1
			if h == 0 {
				h = 1
			}
			d := filepath.Join(scratch, fmt.Sprintf("%s-%d", s.Name, k))
			os.MkdirAll(d, 0755)
			tasks = append(tasks, &task{sub: s, shard: k, checks: c, seed: h, dir: d, out: d + ".json"})
		}
	}
	sem := make(chan struct{}, nproc)
	var wg sync.WaitGroup
	self, _ := os.Executable()
	// a violation makes the remaining tasks unnecessary
	var stop int32
	var mu sync.Mutex
	for _, t := range tasks {
		t := t
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			mu.Lock()
			st := stop
			mu.Unlock()
			if st != 0 {
				return
			}
			for attempt := 0; attempt < 2; attempt++ {
				t.err = ""
				exe := self
				env := append(os.Environ(), "GOMAXPROCS=4", "GOTRACEBACK=single")
				if x := os.Getenv("PBT_RACE"); t.sub.Race && x != "" {
					exe = x
					env = append(env, "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(t.dir, "race"))
				}
				cmd := exec.Command(exe, "-prop", p.ID, "-tier", *fTier, "-worker", t.sub.Name, "-seed", strconv.FormatUint(t.seed, 10),
					"-root", *fRoot, "-repo", *fRepo, "-out", t.out, "-scratch", t.dir,
					"-rapid.checks", strconv.Itoa(t.checks), "-rapid.seed", strconv.FormatUint(t.seed, 10), "-rapid.shrinktime", "12s")
				var errb tailBuf
				cmd.Stderr = &errb
				cmd.Stdout = &errb
				cmd.Env = env
				e := cmd.Run()
				b, re := os.ReadFile(t.out)
				if re == nil {
					var r workerResult
					if je := json.Unmarshal(b, &r); je == nil {
						t.res = &r
						if r.Error != "" {
							t.err = r.Error
						}
						break
					}
				}
				txt := errb.String()
				if i := strings.Index(txt, "fatal error: "); i >= 0 {
					// the process was brought down by the code under test
					// (stack exhaustion, out of memory, concurrent map access)
					t.res = &workerResult{Violations: []violation{{Sub: t.sub.Name, Seed: t.seed, Message: "process crash: " + txt[i:min(len(txt), i+3000)], Case: map[string]string{}}}}
					break
				}
				if i := strings.Index(txt, "panic: "); i >= 0 && !strings.Contains(txt, "verif/main.go") && strings.Contains(txt, "goroutine ") && strings.Contains(txt, "go-mp4.") {
					t.res = &workerResult{Violations: []violation{{Sub: t.sub.Name, Seed: t.seed, Message: "process crash: " + txt[i:min(len(txt), i+3000)], Case: map[string]string{}}}}
					break
				}
				t.err = fmt.Sprintf("worker ended without result: %v\n%s", e, txt)
			}
			if t.res != nil && len(t.res.Violations) > 0 {
				mu.Lock()
				stop = 1
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	keys := map[uint64]struct{}{}
	classes := map[string]int{}
	perSub := map[string]int{}
	var samples []map[string]string
	evals := 0
	known := map[string]string{}
	var viols []violation
	errs := []string{}
	sampled := map[string]int{}
	for _, t := range tasks {
		if t.err != "" {
			errs = append(errs, t.sub.Name+": "+t.err)
		}
		if t.res == nil {
			continue
		}
		evals += t.res.Evals
		perSub[t.sub.Name] += t.res.Evals
		for _, k := range t.res.Keys {
			keys[k] = struct{}{}
		}
		for k, n := range t.res.Classes {
			classes[t.sub.Name+"/"+k] += n
		}
		if sampled[t.sub.Name] < 1 && len(t.res.Samples) > 0 {
			sampled[t.sub.Name]++
			samples = append(samples, t.res.Samples[len(t.res.Samples)-1])
		}
		for k, v := range t.res.Known {
			known[k] = v
		}
		viols = append(viols, t.res.Violations...)
	}
	if samples == nil {
		samples = []map[string]string{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": p.Level,
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(keys), "rule": p.Rule, "samples": samples,
			"evaluations_per_subcheck": perSub, "case_classes": classes,
		},
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viols),
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fRoot, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*fRoot, "evidence", p.ID+".json"), b, 0644); err != nil {
		fmt.Println(err)
		return 3
	}
	var kk []string
	for k := range known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[k])
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs\n", p.ID, *fTier, *fSeed, evals, len(keys), time.Since(start).Seconds())
	if len(viols) > 0 {
		dir := filepath.Join(*fRoot, "replays")
		os.MkdirAll(dir, 0755)
		seen := map[string]bool{}
		for _, v := range viols {
			if seen[v.Sub] {
				continue
			}
			seen[v.Sub] = true
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, v.Sub, *fSeed))
			type rp struct {
				Property string
				violation
			}
			b, _ := json.MarshalIndent(rp{p.ID, v}, "", " ")
			os.WriteFile(path, b, 0644)
			m := v.Message
			if len(m) > 1500 {
				m = m[:1500] + "..."
			}
			fmt.Printf("--- %s: %s\n", v.Sub, m)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Println("ERROR:", e)
		}
		return 3
	}
	return 0
}

// tailBuf keeps the head and tail of a stream.
type tailBuf struct {
	b  []byte
	mu sync.Mutex
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append(t.b[:1<<18:1<<18], t.b[len(t.b)-(1<<18):]...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}
