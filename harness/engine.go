package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// A Prop is one property's check: a set of sub-checks, each of which is a
// rapid property run for a number of generated cases.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Subs        []Sub
}

// Sub is one generated check. N cases are generated in the quick tier and
// N*Thorough in the thorough tier (split over worker processes).
type Sub struct {
	Name     string
	N        int
	Thorough int // multiplier, default 20
	Quick    int // number of cases in the quick tier, if not 3*N
	MaxShard int // default 8
	CPULimit time.Duration
	MemLimit uint64
	Race     bool // run in the binary with the race detector, if there is one
	F        func(c *Case)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Case is the handle a sub-check gets for one generated case.
type Case struct {
	T       *rapid.T
	w       *worker
	mu      sync.Mutex
	notes   []note
	classes []string
	keys    []uint64
	evals   int
	fast    bool
	prng    uint64
	big     int  // the next generated files have very many or deeply nested boxes
	fat     bool // the next generated files have some large payloads
}

// fat runs a check on files some boxes of which are larger than all buffers.
func fat(f func(c *Case)) func(c *Case) {
	return func(c *Case) {
		c.Fast(func() {
			c.fat = true
			f(c)
		})
	}
}

// large runs a check on files with up to max boxes, or nested max/3 deep.
func large(max int, f func(c *Case)) func(c *Case) {
	return func(c *Case) {
		n := c.Int(max/10, max)
		c.Fast(func() {
			c.big = n
			f(c)
		})
	}
}

// Fast runs f with draws taken from a generator seeded by a single rapid
// draw: bulk content that is not worth shrinking element by element.
func (c *Case) Fast(f func()) {
	if c.fast {
		f()
		return
	}
	c.prng = c.U64()
	c.fast = true
	defer func() { c.fast = false }()
	f()
}

type note struct {
	k string
	v interface{}
}

// Note records a part of the case for the replay file / the samples.
// Values are rendered only when needed.
func (c *Case) Note(k string, v interface{}) {
	c.mu.Lock()
	c.notes = append(c.notes, note{k, v})
	c.mu.Unlock()
}

// Class counts the case under a label (distribution measurement).
func (c *Case) Class(s string) { c.classes = append(c.classes, s) }

func (c *Case) ClassIf(b bool, s string) {
	if b {
		c.Class(s)
	}
}

// NonTrivial marks the case as non-trivial; key identifies it for the
// distinct count.
func (c *Case) NonTrivial(key ...interface{}) {
	h := fnv.New64a()
	for _, k := range key {
		switch k := k.(type) {
		case []byte:
			h.Write(k)
		case string:
			h.Write([]byte(k))
		default:
			fmt.Fprintf(h, "|%v", k)
		}
	}
	c.keys = append(c.keys, h.Sum64())
}

// More counts additional evaluations made within this case.
func (c *Case) More(n int) { c.evals += n }

func (c *Case) Failf(format string, args ...interface{}) {
	c.T.Helper()
	c.T.Fatalf(format, args...)
}

func (c *Case) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		c.T.Helper()
		c.T.Fatalf(format, args...)
	}
}

func renderNotes(ns []note) map[string]string {
	m := map[string]string{}
	for _, n := range ns {
		k := n.k
		for i := 2; ; i++ {
			if _, ok := m[k]; !ok {
				break
			}
			k = fmt.Sprintf("%s#%d", n.k, i)
		}
		m[k] = renderVal(n.v)
	}
	return m
}

func renderVal(v interface{}) string {
	switch v := v.(type) {
	case []byte:
		if len(v) > 1<<20 {
			return fmt.Sprintf("hex(%d bytes, first 1MiB):%s", len(v), hex.EncodeToString(v[:1<<20]))
		}
		return "hex:" + hex.EncodeToString(v)
	case func() string:
		return v()
	case string:
		return v
	default:
		return fmt.Sprintf("%+v", v)
	}
}

// ---------- drawing helpers (all randomness comes from rapid) ----------

func mix(x uint64) uint64 {
	if x == 0 {
		return 0
	}
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

var genU64 = rapid.Uint64()

// U64 draws 64 well-mixed bits (shrinks towards 0). rapid's integers favour
// small values; combining two draws makes the result close to uniform.
func (c *Case) U64() uint64 {
	if c.fast {
		c.prng += 0x9e3779b97f4a7c15
		return mix(c.prng | 1)
	}
	a := genU64.Draw(c.T, "u")
	b := genU64.Draw(c.T, "v")
	return mix(a) ^ mix(b)*3
}

// Pick draws a near-uniform index in [0,n) (shrinks towards 0).
func (c *Case) Pick(n int) int {
	if n <= 1 {
		return 0
	}
	return int(c.U64() % uint64(n))
}

// Int draws a near-uniform integer in [lo,hi].
func (c *Case) Int(lo, hi int) int {
	if lo >= 0 && hi-lo >= 16 && c.Pick(16) == 15 {
		if v, ok := c.dictInt(uint64(lo), uint64(hi)); ok {
			return int(v)
		}
	}
	return lo + c.Pick(hi-lo+1)
}

func (c *Case) Bool() bool { return c.Pick(2) == 1 }

// Chance is true with probability about 1/n (shrinks to false).
func (c *Case) Chance(n int) bool { return c.Pick(n) == n-1 }

// Small draws a count, mostly small.
func (c *Case) Small(max int) int {
	var n int
	switch c.Pick(8) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2:
		n = 2
	case 3, 4, 5:
		n = c.Int(0, 5)
	case 6:
		n = c.Int(0, 20)
	default:
		n = c.Int(0, 60)
	}
	if n > max {
		n = n % (max + 1)
	}
	return n
}

// UBits draws an unsigned value of the given width, boundary-biased.
func (c *Case) UBits(bits int) uint64 {
	var m uint64 = ^uint64(0)
	if bits < 64 {
		m = 1<<uint(bits) - 1
	}
	if bits == 0 {
		return 0
	}
	switch c.Pick(9) {
	case 8:
		v, _ := c.dictInt(0, m)
		return v
	case 0:
		return uint64(c.Pick(4)) & m
	case 1:
		return (m - uint64(c.Pick(3))) & m
	case 2:
		return (1 << uint(c.Pick(bits))) & m
	case 3:
		return (1<<uint(bits-1) - uint64(c.Pick(2))) & m
	case 4:
		return c.U64() & 0xff & m
	case 5:
		return (c.U64() >> uint(c.Pick(64))) & m
	default:
		return c.U64() & m
	}
}

// IBits draws a signed value of the given width, boundary-biased.
func (c *Case) IBits(bits int) int64 {
	u := c.UBits(bits)
	if bits >= 64 {
		return int64(u)
	}
	return int64(u<<uint(64-bits)) >> uint(64-bits)
}

// Bytes draws n bytes.
func (c *Case) Bytes(n int) []byte {
	b := make([]byte, n)
	if n > 64 {
		fillBytes(b, c.U64())
		if c.Pick(8) == 7 {
			c.dictBytes(b)
		}
		return b
	}
	mode := c.Pick(7)
	for i := 0; i < n; {
		u := c.U64()
		for k := 0; k < 8 && i < n; k++ {
			x := byte(u)
			u >>= 8
			switch mode {
			case 0:
				x = 0
			case 1:
				x = 0xff
			case 2:
				x = 0x20 + x%0x5f
			}
			b[i] = x
			i++
		}
	}
	if mode == 6 {
		c.dictBytes(b)
	}
	return b
}

func fillBytes(b []byte, seed uint64) {
	x := seed | 1
	for i := range b {
		x += 0x9e3779b97f4a7c15
		b[i] = byte(mix(x) >> 13)
	}
}

// ---------- worker ----------

type worker struct {
	prop, sub  string
	mu         sync.Mutex
	evals      int
	keys       map[uint64]struct{}
	classes    map[string]int
	samples    []map[string]string
	cur        *Case
	caseCPU    int64 // CPU time at the start of the current case
	curFailed  []note
	failMsg    string
	out        string
	cpuLimit   time.Duration
	memLimit   uint64
	known      map[string]string
	finished   int32
	logs       []string
	failed     bool
	name       string
	violations []violation
}

type violation struct {
	Sub      string            `json:"sub"`
	Message  string            `json:"message"`
	Case     map[string]string `json:"case"`
	FailFile string            `json:"rapid_failfile,omitempty"`
	Seed     uint64            `json:"rapid_seed"`
}

type workerResult struct {
	Evals      int                 `json:"evals"`
	Keys       []uint64            `json:"keys"`
	Classes    map[string]int      `json:"classes"`
	Samples    []map[string]string `json:"samples"`
	Violations []violation         `json:"violations"`
	Known      map[string]string   `json:"known"`
	Error      string              `json:"error"`
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (w *worker) write(errMsg string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	res := workerResult{Evals: w.evals, Classes: w.classes, Samples: w.samples, Violations: w.violations, Known: w.known, Error: errMsg}
	for k := range w.keys {
		res.Keys = append(res.Keys, k)
	}
	sort.Slice(res.Keys, func(i, j int) bool { return res.Keys[i] < res.Keys[j] })
	b, err := json.Marshal(res)
	if err != nil {
		b = []byte(`{"error":"marshal"}`)
	}
	tmp := w.out + ".tmp"
	os.WriteFile(tmp, b, 0644)
	os.Rename(tmp, w.out)
}

func (w *worker) watch(seed uint64) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(20 * time.Millisecond)
		if atomic.LoadInt32(&w.finished) != 0 {
			return
		}
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		if heap > w.memLimit {
			// garbage is not to count as live heap
			runtime.GC()
			metrics.Read(sample)
			heap = sample[0].Value.Uint64()
		}
		used := cpuTime() - time.Duration(atomic.LoadInt64(&w.caseCPU))
		var msg string
		if heap > w.memLimit {
			msg = fmt.Sprintf("memory: %d bytes of live heap while running one small case (limit %d)", heap, w.memLimit)
		} else if used > w.cpuLimit {
			msg = fmt.Sprintf("no result: one case used more than %v of CPU time", w.cpuLimit)
		}
		if msg == "" {
			continue
		}
		w.mu.Lock()
		cur := w.cur
		w.mu.Unlock()
		var notes map[string]string
		if cur != nil {
			cur.mu.Lock()
			notes = renderNotes(cur.notes)
			cur.mu.Unlock()
		}
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		if notes == nil {
			notes = map[string]string{}
		}
		notes["stacks"] = string(buf)
		w.mu.Lock()
		w.violations = append(w.violations, violation{Sub: w.sub, Message: msg, Case: notes, Seed: seed})
		w.mu.Unlock()
		w.write("")
		os.Exit(0)
	}
}

// rapid.TB implementation
type tb struct{ w *worker }

type tbExit struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.w.name }
func (t *tb) Logf(f string, a ...any)   { t.log(fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.log(fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic(tbExit{}) }
func (t *tb) Skip(a ...any)             { panic(tbExit{}) }
func (t *tb) SkipNow()                  { panic(tbExit{}) }
func (t *tb) Errorf(f string, a ...any) { t.log("ERROR: " + fmt.Sprintf(f, a...)); t.w.failed = true }
func (t *tb) Error(a ...any)            { t.log("ERROR: " + fmt.Sprint(a...)); t.w.failed = true }
func (t *tb) Fatalf(f string, a ...any) {
	t.log("FATAL: " + fmt.Sprintf(f, a...))
	t.w.failed = true
	panic(tbExit{})
}
func (t *tb) Fatal(a ...any) {
	t.log("FATAL: " + fmt.Sprint(a...))
	t.w.failed = true
	panic(tbExit{})
}
func (t *tb) FailNow()     { t.w.failed = true; panic(tbExit{}) }
func (t *tb) Fail()        { t.w.failed = true }
func (t *tb) Failed() bool { return t.w.failed }
func (t *tb) log(s string) {
	if len(t.w.logs) < 2000 {
		t.w.logs = append(t.w.logs, s)
	}
}

func runWorker(p *Prop, s *Sub, seed uint64, out, scratch string) {
	w := &worker{prop: p.ID, sub: s.Name, keys: map[uint64]struct{}{}, classes: map[string]int{}, out: out,
		cpuLimit: s.CPULimit, memLimit: s.MemLimit, known: map[string]string{}, name: p.ID + "_" + s.Name}
	if w.cpuLimit == 0 {
		w.cpuLimit = 25 * time.Second
	}
	if w.memLimit == 0 {
		w.memLimit = 1500 << 20
	}
	debug.SetMaxStack(256 << 20)
	os.Chdir(scratch)
	theWorker = w
	atomic.StoreInt64(&w.caseCPU, int64(cpuTime()))
	go w.watch(seed)
	fn := func(t *rapid.T) {
		c := &Case{T: t, w: w, evals: 1}
		atomic.StoreInt64(&w.caseCPU, int64(cpuTime()))
		w.mu.Lock()
		w.cur = c
		w.mu.Unlock()
		ok := false
		defer func() {
			if !ok {
				if r := recover(); r != nil {
					m := fmt.Sprintf("%v", r)
					w.failMsg = m
					w.curFailed = c.notes
					panic(r)
				}
			}
		}()
		s.F(c)
		ok = true
		w.evals += c.evals
		for _, k := range c.classes {
			w.classes[k]++
		}
		newKey := false
		for _, k := range c.keys {
			if len(w.keys) < 1<<20 {
				if _, dup := w.keys[k]; !dup {
					newKey = true
				}
				w.keys[k] = struct{}{}
			}
		}
		if newKey && len(w.samples) < 3 {
			m := renderNotes(c.notes)
			for k, v := range m {
				if len(v) > 600 {
					m[k] = v[:600] + "...(" + fmt.Sprint(len(v)) + " chars)"
				}
			}
			m["sub"] = s.Name
			w.samples = append(w.samples, m)
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbExit); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(&tb{w}, fn)
	}()
	atomic.StoreInt32(&w.finished, 1)
	if w.failed {
		msg := ""
		for _, l := range w.logs {
			if strings.HasPrefix(l, "ERROR: ") || strings.HasPrefix(l, "FATAL: ") {
				msg = l
				break
			}
		}
		if strings.Contains(msg, "only generated") {
			w.write("generator: " + msg)
			return
		}
		ff := ""
		if m, _ := filepath.Glob(filepath.Join(scratch, "testdata", "rapid", "*", "*.fail")); len(m) > 0 {
			b, _ := os.ReadFile(m[0])
			ff = string(b)
		}
		w.violations = append(w.violations, violation{Sub: s.Name, Message: msg, Case: renderNotes(w.curFailed), FailFile: ff, Seed: seed})
	}
	w.write("")
}

var theWorker *worker

// abort reports a failure that cannot be reproduced by running the case
// again, and ends the worker.
func (w *worker) abort(msg string) {
	w.mu.Lock()
	w.violations = append(w.violations, violation{Sub: w.sub, Message: msg, Case: renderNotes(w.cur.notes)})
	w.mu.Unlock()
	w.write("")
	os.Exit(0)
}
