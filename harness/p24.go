package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C24", Level: "exploration",
		Rule: "purity: the box or payload is not empty; history: at least one other operation came in between; parallel: at least two operations ran at once on separate inputs",
		Assumptions: []string{
			"types are not registered while operations run",
			"operations running at once share no reader, writer or box",
			"races are found by the race detector of the Go toolchain (needs cgo) on the schedules that occur",
		},
		Subs: []Sub{
			{Name: "pure", N: 40000, F: c24Pure},
			{Name: "decode", N: 40000, F: c24Decode},
			{Name: "decodefat", N: 100, F: fat(c24Decode)},
			{Name: "instances", N: 40000, F: c24Instances},
			{Name: "history", N: 4000, F: c24History},
			{Name: "fat", N: 150, F: fat(c24History)},
			{Name: "lists", N: 10000, F: c24Lists},
			{Name: "parallel", N: 700, Thorough: 12, Race: true, F: c24Parallel},
			{Name: "parallelsame", N: 400, Thorough: 12, Race: true, F: c24ParallelSame},
		},
	})
}

// spareRoom gives every slice some capacity beyond its length, filled with a
// pattern.
func spareRoom(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			spareRoom(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				spareRoom(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		n := v.Len()
		s := reflect.MakeSlice(v.Type(), n+3, n+3)
		reflect.Copy(s, v)
		for i := n; i < n+3; i++ {
			scribble(s.Index(i))
		}
		v.Set(s.Slice(0, n))
		for i := 0; i < n; i++ {
			spareRoom(v.Index(i))
		}
	}
}

// scribble changes everything that can be reached.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scribble(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.Cap() > v.Len() {
			v = v.Slice(0, v.Cap())
		}
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^v.Uint() >> uint(64-v.Type().Bits()))
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.String:
		v.SetString(v.String() + "!")
	}
}

// fullText prints a value with everything, also what lies between the length
// and the capacity of slices, and whether they are nil.
func fullText(v reflect.Value) string {
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteByte('&')
			walk(v.Elem())
		case reflect.Struct:
			b.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
				b.WriteByte(' ')
			}
			b.WriteByte('}')
		case reflect.Slice:
			fmt.Fprintf(&b, "%v/%d[", v.IsNil(), v.Len())
			v = v.Slice(0, v.Cap())
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		case reflect.Array:
			b.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		default:
			fmt.Fprintf(&b, "%#v", v)
		}
	}
	walk(v)
	return b.String()
}

type limitedWriter struct{ n int }

func (l *limitedWriter) Write(p []byte) (int, error) {
	if len(p) > l.n {
		n := l.n
		l.n = 0
		return n, faultErrs[0]
	}
	l.n -= len(p)
	return len(p), nil
}

// c24Pure: encoding and rendering leave the box alone, whether they succeed
// or not, and give the same again.
func c24Pure(c *Case) {
	s := opSpec(c)
	g := opGen(c)
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	b := s.Build(v, t)
	rv := reflect.ValueOf(b).Elem()
	// some tables are not as long as declared
	if c.Chance(4) {
		for i := 0; i < rv.NumField(); i++ {
			if f := rv.Field(i); f.Kind() == reflect.Slice && f.CanSet() && c.Bool() {
				n := f.Len() - 1
				if c.Bool() || n < 0 {
					n = f.Len() + 1
				}
				x := reflect.MakeSlice(f.Type(), n, n)
				reflect.Copy(x, f)
				f.Set(x)
				c.Class("table of another length")
			}
		}
	}
	spareRoom(rv)
	noteBox(c, s, t, ctx, nil)
	c.Note("box", deep(b))
	before := fullText(rv)
	var log []string
	c.Note("operations", func() string { return strings.Join(log, " ") })
	want := map[string]string{}
	for n := c.Int(2, 7); n > 0; n-- {
		k := c.Pick(6)
		what := []string{"encode", "text", "indented text", "encode failing", "encode elsewhere", "query"}[k]
		log = append(log, what)
		var res string
		func() {
			defer func() {
				if r := recover(); r != nil {
					res = "panic"
				}
			}()
			switch k {
			case 0:
				var w bytes.Buffer
				n, err := mp4.Marshal(&w, b, ctx)
				res = fmt.Sprint(n, err)
				if err == nil {
					res += fmt.Sprintf("%x", w.Bytes())
				}
			case 1:
				x, err := mp4.Stringify(b, ctx)
				res = fmt.Sprint(x, err)
			case 2:
				x, err := mp4.StringifyWithIndent(b, "  ", ctx)
				res = fmt.Sprint(x, err)
			case 3:
				mp4.Marshal(&limitedWriter{c.Pick(20)}, b, ctx)
				return
			case 4:
				o := g.anyContext()
				mp4.Marshal(&bytes.Buffer{}, b, o)
				mp4.Stringify(b, o)
				return
			case 5:
				res = fmt.Sprintf("%v %v %v %v", b.GetType(), b.GetVersion(), b.GetFlags(), b.CheckFlag(1))
			}
		}()
		if after := fullText(rv); after != before {
			c.Failf("%s of %s changed the box:\n%s", what, s.Name, lineDiff(strings.ReplaceAll(before, " ", "\n"), strings.ReplaceAll(after, " ", "\n")))
		}
		if old, ok := want[what]; ok && res != old && res != "" {
			c.Failf("%s of %s gave %s, then %s", what, s.Name, clip(old), clip(res))
		}
		if res != "" {
			want[what] = res
		}
		c.More(1)
	}
	c.NonTrivial(t[:], before)
	c.Class(s.Name)
}

// c24Decode: a decoded box shares nothing with the input or another box.
func c24Decode(c *Case) {
	s := opSpec(c)
	g := opGen(c)
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	p := mustEncode(s, v, ctx)
	noteBox(c, s, t, ctx, nil)
	c.Note("payload", p)
	if len(p) > 0 {
		c.NonTrivial(t[:], p)
	}
	c.Class(s.Name)
	pre := c.Bytes(c.Pick(5))
	buf := append(append(append(make([]byte, 0, 4096), pre...), p...), c.Bytes(c.Pick(5))...)
	keep := append([]byte{}, buf...)
	dec := func() mp4.IBox {
		r := bytes.NewReader(buf)
		r.Seek(int64(len(pre)), io.SeekStart)
		var b mp4.IBox
		var err error
		if c.Bool() {
			b, _, err = mp4.UnmarshalAny(r, t, uint64(len(p)), ctx)
		} else {
			b = instance(s, t)
			_, err = mp4.Unmarshal(r, uint64(len(p)), b, ctx)
		}
		if err != nil {
			c.Failf("decoding %s: %v", s.Name, err)
		}
		if !bytes.Equal(buf, keep) {
			c.Failf("decoding %s changed the input", s.Name)
		}
		return b
	}
	a := dec()
	want := deep(a)
	b := dec()
	if x := deep(b); x != want {
		c.Failf("decoding %s again gave another box: %s", s.Name, lineDiff(strings.ReplaceAll(want, " ", "\n"), strings.ReplaceAll(x, " ", "\n")))
	}
	// one box is changed
	scribble(reflect.ValueOf(b).Elem())
	if x := deep(a); x != want {
		c.Failf("changing a decoded %s changed another one", s.Name)
	}
	if !bytes.Equal(buf, keep) {
		c.Failf("changing a decoded %s changed the input", s.Name)
	}
	// a decoding that fails
	if len(p) > 0 {
		k := c.Pick(len(p))
		mp4.UnmarshalAny(bytes.NewReader(p[:k]), t, uint64(k), ctx)
		mp4.UnmarshalAny(bytes.NewReader(p[:k]), t, uint64(len(p)), ctx)
	}
	if x := deep(dec()); x != want {
		c.Failf("after a box was changed, decoding %s gave another one", s.Name)
	}
	// another payload is decoded into the same box, of which a copy was made
	held := reflect.New(reflect.TypeOf(a).Elem())
	held.Elem().Set(reflect.ValueOf(a).Elem())
	heldWant := deep(held.Interface())
	p2 := mustEncode(s, g.value(s, ctx), ctx)
	again := reflect.New(reflect.TypeOf(a).Elem())
	again.Elem().Set(held.Elem())
	mp4.Unmarshal(bytes.NewReader(p2), uint64(len(p2)), again.Interface().(mp4.IBox), ctx)
	if x := deep(held.Interface()); x != heldWant {
		c.Failf("decoding into a %s again changed a copy of it: %s, was %s", s.Name, clip(x), clip(heldWant))
	}
	// the input is changed
	for i := range buf {
		buf[i] ^= 0x5a
	}
	if x := deep(a); x != want {
		c.Failf("a decoded %s changed with the input", s.Name)
	}
	// its own encoding does not depend on the input either
	var w bytes.Buffer
	mp4.Marshal(&w, a, ctx)
	out := append([]byte{}, w.Bytes()...)
	scribble(reflect.ValueOf(a).Elem())
	if !bytes.Equal(w.Bytes(), out) {
		c.Failf("changing a %s changed its earlier encoding", s.Name)
	}
	c.More(3)
}

// c24Instances: new boxes are zero, whatever was done with earlier ones.
func c24Instances(c *Case) {
	s := opSpec(c)
	g := opGen(c)
	ctx, t := g.context(s)
	c.Note("type", fmt.Sprintf("%q %+v", string(t[:]), ctx))
	c.NonTrivial(t[:], fmt.Sprintf("%+v", ctx))
	c.Class(s.Name)
	var old []mp4.IBox
	var want []string
	zero := ""
	for n := c.Int(2, 5); n > 0; n-- {
		b, err := t.New(ctx)
		if err != nil {
			c.Failf("New(%q): %v", string(t[:]), err)
		}
		if b.GetType() != t {
			c.Failf("New(%q) has type %q", string(t[:]), b.GetType())
		}
		x := deep(b)
		if zero == "" {
			zero = x
			z := reflect.New(reflect.TypeOf(b).Elem())
			if a, ok := z.Interface().(mp4.IAnyType); ok {
				a.SetType(t)
			}
			zero = deep(z.Interface())
		}
		if x != zero {
			c.Failf("New(%q) is not zero: %s", string(t[:]), x)
		}
		for i, o := range old {
			if deep(o) != want[i] {
				c.Failf("creating or changing a box changed an earlier one: %s, was %s", deep(o), want[i])
			}
		}
		switch c.Pick(3) {
		case 0:
			scribble(reflect.ValueOf(b).Elem())
		case 1:
			v := g.value(s, ctx)
			p := mustEncode(s, v, ctx)
			mp4.Unmarshal(bytes.NewReader(p), uint64(len(p)), b, ctx)
		default:
			fillAny(c, reflect.ValueOf(b).Elem(), 2)
		}
		if a, ok := b.(mp4.IAnyType); ok && c.Bool() {
			a.SetType(mp4.StrToBoxType("free"))
		}
		old = append(old, b)
		want = append(want, deep(b))
		c.More(1)
	}
}

type opResult struct {
	text string
	err  string
	out  []byte
}

func runOp(op *ioOp, r io.ReadSeeker) opResult {
	w := &memFile{}
	x, err := op.run(r, w)
	res := opResult{text: x, out: w.bytes()}
	if err != nil {
		res = opResult{err: err.Error()}
	}
	return res
}

func (a opResult) diff(b opResult) string {
	switch {
	case a.err != b.err:
		return fmt.Sprintf("error %q, then %q", a.err, b.err)
	case a.text != b.text:
		return lineDiff(a.text, b.text)
	case !bytes.Equal(a.out, b.out):
		return fmt.Sprintf("output %s, then %s", clip(fmt.Sprintf("%x", a.out)), clip(fmt.Sprintf("%x", b.out)))
	}
	return ""
}

// c24History: operations in any order, some failing, always give what they
// gave at first; boxes they returned stay as they were.
func c24History(c *Case) {
	var ops []*ioOp
	var want []opResult
	for n := c.Int(2, 4); n > 0; n-- {
		op := drawOp(c, opKinds[c.Pick(len(opKinds))])
		ops = append(ops, op)
		want = append(want, runOp(op, &sparseReader{s: op.src}))
	}
	// boxes that stay around
	type kept struct {
		b    interface{}
		text string
	}
	var alive []kept
	hold := func() {
		s := opSpec(c)
		g := opGen(c)
		ctx, t := g.context(s)
		p := mustEncode(s, g.value(s, ctx), ctx)
		if b, _, err := mp4.UnmarshalAny(bytes.NewReader(p), t, uint64(len(p)), ctx); err == nil {
			alive = append(alive, kept{b, deep(b)})
		}
		if c.Chance(3) {
			b := s.Build(g.value(s, ctx), t)
			alive = append(alive, kept{b, deep(b)})
		}
	}
	var log []string
	c.Note("history", func() string { return strings.Join(log, "\n") })
	for n := c.Int(2, 10); n > 0; n-- {
		i := c.Pick(len(ops))
		op := ops[i]
		switch c.Pick(5) {
		case 0: // fails somewhere
			f := &faulty{failAt: c.Pick(30), sticky: c.Bool(), mode: c.Pick(2), err: faultErrs[c.Pick(len(faultErrs))]}
			log = append(log, fmt.Sprintf("%s failing at call %d", op.name, f.failAt))
			func() {
				defer func() { recover() }()
				op.run(&faultyReader{f, &sparseReader{s: op.src}}, &faultyWriter{f, &memFile{}})
			}()
		case 1: // on a cut file
			log = append(log, op.name+" on a cut file")
			runOp(op, &sparseReader{s: op.src.truncated(uint64(c.Pick(int(min64(op.src.size, 1<<20)) + 1)))})
		case 2:
			hold()
		}
		log = append(log, fmt.Sprintf("%s (number %d)", op.name, i))
		if d := want[i].diff(runOp(op, &sparseReader{s: op.src})); d != "" {
			c.Failf("%s gave another result after other operations: %s", op.name, d)
		}
		for _, k := range alive {
			if x := deep(k.b); x != k.text {
				c.Failf("a box changed while other operations ran: %s", lineDiff(strings.ReplaceAll(k.text, " ", "\n"), strings.ReplaceAll(x, " ", "\n")))
			}
		}
		c.More(1)
	}
	c.NonTrivial(strings.Join(log, ";"), want[0].text, want[0].out)
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

// c24Lists: bitrates and frame searches leave their lists alone.
func c24Lists(c *Case) {
	var ss mp4.Samples
	for n := c.Pick(8); n > 0; n-- {
		ss = append(ss, &mp4.Sample{Size: uint32(c.UBits(20)), TimeDelta: uint32(c.UBits(12)), CompositionTimeOffset: c.IBits(20)})
	}
	var gs mp4.Segments
	for n := c.Pick(8); n > 0; n-- {
		gs = append(gs, &mp4.Segment{TrackID: uint32(c.Int(1, 2)), MoofOffset: c.UBits(30), Size: uint32(c.UBits(20)), Duration: uint32(c.UBits(12)), SampleCount: uint32(c.UBits(8))})
	}
	bi := &mp4.BoxInfo{Offset: c.UBits(20), Size: c.UBits(20), HeaderSize: 8, Type: anyType(c), Context: newGen(c).anyContext()}
	for bi.Type == mp4.BoxTypeKeys() || bi.Type == mp4.BoxTypeFtyp() {
		// a traversal that starts at these notes in the context of the
		// given BoxInfo what it learned from their payload
		bi.Type = anyType(c)
	}
	path := mp4.BoxPath{anyType(c), anyType(c)}
	c.Note("lists", func() string { return deep(ss) + deep(gs) })
	before := deep(ss) + deep(gs) + deep(bi) + deep(path)
	c.NonTrivial(before)
	ts, d, id := uint32(c.UBits(16)), c.UBits(13), uint32(c.Int(1, 3))
	var first string
	for k := 0; k < 2; k++ {
		x := fmt.Sprint(ss.GetBitrate(ts), ss.GetMaxBitrate(ts, d), gs.GetBitrate(id, ts), gs.GetMaxBitrate(id, ts))
		mp4.FindIDRFrames(bytes.NewReader(nil), &mp4.TrackInfo{Samples: ss})
		mp4.WriteBoxInfo(&memFile{}, bi)
		mp4.ExtractBox(bytes.NewReader(make([]byte, 64)), bi, path)
		mp4.NewWriter(&memFile{}).StartBox(bi)
		if first == "" {
			first = x
		} else if x != first {
			c.Failf("bitrates %s, then %s", first, x)
		}
		if after := deep(ss) + deep(gs) + deep(bi) + deep(path); after != before {
			c.Failf("an operation changed its arguments: %s, was %s", after, before)
		}
	}
}

// ---- parallel runs ----

var raceSeen int64

// raceReport returns what the race detector has written since the last call.
func raceReport() string {
	if raceLogs == "" {
		return ""
	}
	fs, _ := filepath.Glob(raceLogs + ".*")
	var all []byte
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		all = append(all, b...)
	}
	n := atomic.LoadInt64(&raceSeen)
	if int64(len(all)) <= n {
		return ""
	}
	atomic.StoreInt64(&raceSeen, int64(len(all)))
	return string(all[n:])
}

var raceLogs = func() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return f[len("log_path="):]
		}
	}
	return ""
}()

// inParallel runs the operations at once, each several times.
func inParallel(c *Case, ops []*ioOp, want []opResult, rounds int) {
	c.Class(map[bool]string{true: "with the race detector", false: "without the race detector"}[raceOn])
	start := make(chan struct{})
	var wg sync.WaitGroup
	bad := make([]string, len(ops))
	for i := range ops {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[i] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			for k := 0; k < rounds && bad[i] == ""; k++ {
				got := runOp(ops[i], &sparseReader{s: ops[i].src})
				bad[i] = want[i].diff(got)
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, b := range bad {
		if b != "" {
			c.Failf("%s gave another result while other operations ran: %s", ops[i].name, b)
		}
	}
	if r := raceReport(); r != "" && strings.Contains(r, "go-mp4") {
		// the detector reports a place once only: no shrinking
		c.w.abort("data race:\n" + clipN(r, 4000))
	}
	c.More(len(ops) * rounds)
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func c24Parallel(c *Case) {
	var ops []*ioOp
	var want []opResult
	key := ""
	for n := c.Int(2, 8); n > 0; n-- {
		op := drawOp(c, opKinds[c.Pick(len(opKinds))])
		ops = append(ops, op)
		key += op.name + ";"
		c.Class(op.name)
	}
	for _, op := range ops {
		want = append(want, runOp(op, &sparseReader{s: op.src}))
		key += want[len(want)-1].text
	}
	c.NonTrivial(key)
	inParallel(c, ops, want, 4)
}

// c24ParallelSame: many operations of one kind, on separate inputs; they
// come first in their process, so that anything made at first use is made at
// once.
func c24ParallelSame(c *Case) {
	kind := opKinds[c.Pick(len(opKinds))]
	c.Class(kind)
	var ops []*ioOp
	var want []opResult
	key := kind
	for n := c.Int(2, 6); n > 0; n-- {
		ops = append(ops, drawOp(c, kind))
	}
	first := make([]opResult, len(ops))
	var wg sync.WaitGroup
	for i := range ops {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					first[i].err = fmt.Sprintf("panic: %v", r)
				}
			}()
			first[i] = runOp(ops[i], &sparseReader{s: ops[i].src})
		}()
	}
	wg.Wait()
	for i, op := range ops {
		want = append(want, runOp(op, &sparseReader{s: op.src}))
		key += want[i].text
		if d := first[i].diff(want[i]); d != "" {
			c.Failf("%s gave another result while others ran: %s", op.name, d)
		}
	}
	c.NonTrivial(key)
	inParallel(c, ops, want, 3)
}
