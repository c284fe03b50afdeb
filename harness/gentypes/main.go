// gentypes writes Go source with randomly generated box structures (struct
// definitions with field tags, hook methods and a registration) and, for each,
// the matching tables of the reference model. Both are produced from the same
// plan; neither is derived from the other, and the library is not consulted.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
)

var r *rand.Rand

func chance(n int) bool            { return r.Intn(n) == 0 }
func pick(ss ...string) string     { return ss[r.Intn(len(ss))] }
func between(lo, hi int) int       { return lo + r.Intn(hi-lo+1) }
func sp(f string, a ...any) string { return fmt.Sprintf(f, a...) }

// T is one generated box structure.
type T struct {
	name   string
	code   string
	full   bool
	any    bool
	vers   []int // nil: any
	verAll bool
	nf     int // field counter
	ns     int // nested struct counter
	decls  []string
	root   *S
	size   int // budget
	open   bool
	bad    bool // bits do not add up to whole bytes
	gets   map[string][]string
	huge   bool
}

// S is one struct of a box structure.
type S struct {
	t      *T
	goName string
	own    bool // has hooks of its own
	box    bool
	depth  int
	skew   bool // may start off a byte boundary
	fields []*F // in wire order
	sel    []*F // unconditional counters that hooks may use
	hooks  map[string][]string
}

type F struct {
	name   string
	goType string
	tags   []string
	model  string // constructor
	mods   string
	bits   int
	count  bool
	order  int
	dyn    bool
}

func (t *T) fname() string { t.nf++; return sp("F%d", t.nf) }

// scope is where a hook condition or length may look: the struct itself if it
// has its own hooks or is the box, otherwise the box.
func (s *S) scope() *S {
	if s.own || s.box {
		return s
	}
	return s.t.root
}

// ref gives the Go expression (in a hook of the scope) and the model
// expression for a counter field.
func (s *S) ref(f *F) (string, string) {
	if s.scope() == s {
		return "uint64(b." + f.name + ")", sp("e.U(%q)", f.name)
	}
	return "uint64(b." + f.name + ")", sp("rootU(e, %q)", f.name)
}

func (s *S) hook(kind, field, ret string) {
	h := s.scope()
	h.hooks[kind] = append(h.hooks[kind], sp("\tcase %q:\n\t\treturn %s\n", field, ret))
}

func uGo(bits int, min int) (string, int) {
	ws := []int{8, 16, 32, 64}
	i := 0
	for ws[i] < min {
		i++
	}
	w := ws[between(i, 3)]
	if w == 64 && chance(6) {
		return "uint", 64
	}
	return sp("uint%d", w), w
}

// intField makes an integer field of the given width.
func (s *S) intField(bits int) *F {
	f := &F{name: s.t.fname(), bits: bits}
	gt, w := uGo(bits, bits)
	switch {
	case chance(3): // signed
		gt = strings.TrimPrefix(gt, "u")
		f.model = sp("iN(%d, %q, %d)", w, f.name, bits)
	case w == 64 && chance(6):
		gt = "uintptr"
		f.model = sp("uN(64, %q, %d)", f.name, bits)
		f.mods += ".fmt('x')"
	default:
		f.model = sp("uN(%d, %q, %d)", w, f.name, bits)
	}
	if chance(12) && gt != "uintptr" && gt != "uint" && gt != "int" {
		gt = "My" + strings.ToUpper(gt[:1]) + gt[1:]
	}
	f.goType = gt
	f.tags = append(f.tags, sp("size=%d", bits))
	if gt != "uintptr" {
		s.numFmt(f)
	}
	if chance(8) {
		f.goType = "*" + f.goType
	}
	return f
}

func (s *S) numFmt(f *F) {
	switch r.Intn(5) {
	case 0:
		f.tags = append(f.tags, "hex")
		f.mods += ".fmt('x')"
	case 1:
		f.tags = append(f.tags, "dec")
		f.mods += ".fmt('d')"
	}
}

func (s *S) boolField(bits int) *F {
	f := &F{name: s.t.fname(), bits: bits}
	f.goType = pick("bool", "bool", "bool", "MyBool", "*bool")
	f.model = sp("bl(%q, %d)", f.name, bits)
	f.tags = append(f.tags, sp("size=%d", bits))
	return f
}

func (s *S) countField(bits int) *F {
	f := &F{name: s.t.fname(), bits: bits, count: true}
	gt, w := uGo(bits, bits)
	f.goType = gt
	f.model = sp("uN(%d, %q, %d).cnt()", w, f.name, bits)
	f.tags = append(f.tags, sp("size=%d", bits))
	s.numFmt(f)
	return f
}

// run makes fields of a total of n bits.
func (s *S) run(n int) []*F {
	var fs []*F
	for n > 0 {
		switch k := r.Intn(12); {
		case k == 0 && n >= 2: // array
			cnt := between(1, min(5, n))
			w := between(1, n/cnt)
			if w > 64 {
				w = between(1, 64)
			}
			fs = append(fs, s.arrayOfInts(cnt, w, false))
			n -= cnt * w
		case k == 1:
			w := 1
			if chance(4) {
				w = between(1, min(n, 20))
			}
			fs = append(fs, s.boolField(w))
			n -= w
		case k == 2 && n >= 15:
			f := &F{name: s.t.fname()}
			f.goType = "[3]byte"
			f.tags = []string{"size=5", "iso639-2"}
			f.model = sp("arr(%q, 3, u8(\"\", 5)).fmt('l')", f.name)
			fs = append(fs, f)
			n -= 15
		case k == 3 && n >= 3:
			w := between(3, min(n, 16))
			fs = append(fs, s.countField(w))
			n -= w
		case k == 4 && n >= 9 && n <= 72: // two dynamic sizes that add up
			if f1, f2 := s.dynPair(n); f1 != nil {
				fs = append(fs, f1, f2)
				n = 0
			}
		default:
			w := between(1, min(n, 64))
			if chance(3) {
				w = min(n, 64)
			}
			fs = append(fs, s.intField(w))
			n -= w
		}
	}
	return fs
}

// counters that a hook of this struct may use
func (s *S) counters() []*F {
	var out []*F
	for _, f := range s.scope().sel {
		out = append(out, f)
	}
	return out
}

func (s *S) dynPair(n int) (*F, *F) {
	cs := s.counters()
	if len(cs) == 0 {
		return nil, nil
	}
	// first gets lo+(counter mod span) bits
	lo := between(1, n-1)
	if n-lo > 64 {
		lo = n - 64
	}
	span := between(1, min(7, n-lo))
	if lo+span-1 > 64 {
		return nil, nil
	}
	cnt := cs[r.Intn(len(cs))]
	g, m := s.ref(cnt)
	mk := func(expr, model string) *F {
		f := &F{name: s.t.fname()}
		f.goType = pick("uint64", "uint64", "int64", "uint", "int")
		if strings.HasPrefix(f.goType, "u") {
			f.model = sp("uN(64, %q, 0).bitsf(func(e *Env) int { return %s })", f.name, model)
		} else {
			f.model = sp("iN(64, %q, 0).bitsf(func(e *Env) int { return %s })", f.name, model)
		}
		f.tags = append(f.tags, "size=dynamic")
		f.dyn = true
		s.numFmt(f)
		s.hook("GetFieldSize", f.name, expr)
		return f
	}
	f1 := mk(sp("uint(%d + %s%%%d)", lo, g, span), sp("%d + int(%s%%%d)", lo, m, span))
	f2 := mk(sp("uint(%d - %s%%%d)", n-lo, g, span), sp("%d - int(%s%%%d)", n-lo, m, span))
	return f1, f2
}

func (s *S) arrayOfInts(cnt, w int, whole bool) *F {
	f := &F{name: s.t.fname()}
	gt, gw := uGo(w, w)
	el := sp("uN(%d, \"\", %d)", gw, w)
	switch {
	case chance(4):
		gt = strings.TrimPrefix(gt, "u")
		el = sp("iN(%d, \"\", %d)", gw, w)
	case w <= 20 && chance(8):
		gt = "bool"
		el = sp("bl(\"\", %d)", w)
	}
	star := ""
	if chance(10) {
		star = "*"
	}
	f.goType = sp("[%d]%s%s", cnt, star, gt)
	f.tags = append(f.tags, sp("size=%d", w))
	f.model = sp("arr(%q, %d, %s)", f.name, cnt, el)
	if gt != "bool" {
		s.numFmt(f)
	}
	if chance(12) {
		f.goType = "*" + f.goType
	}
	return f
}

// length draws the length of a slice: the tag, and the model modifier.
// elements come in multiples of k.
func (s *S) length(f *F, k int) {
	cs := s.counters()
	if len(cs) == 0 || chance(4) {
		n := k * between(0, 5)
		if chance(20) {
			n = k * between(6, 40)
		}
		f.tags = append(f.tags, sp("len=%d", n))
		f.mods += sp(".lenC(%d)", n)
		return
	}
	c := cs[r.Intn(len(cs))]
	g, m := s.ref(c)
	f.tags = append(f.tags, "len=dynamic")
	switch {
	case k == 1 && chance(3) && s.scope() != s:
		f.mods += sp(".lenf(func(e *Env) int64 { return int64(%s) })", m)
		s.hook("GetFieldLength", f.name, sp("uint(%s)", g))
	case k == 1 && s.scope() == s && chance(2):
		f.mods += sp(".lenOf(%q)", c.name)
		s.hook("GetFieldLength", f.name, sp("uint(b.%s)", c.name))
	default:
		mul, add := k*between(1, 2), k*between(0, 2)
		mod := between(2, 9)
		f.mods += sp(".lenf(func(e *Env) int64 { return int64(%s%%%d)*%d + %d })", m, mod, mul, add)
		s.hook("GetFieldLength", f.name, sp("uint(%s%%%d)*%d + %d", g, mod, mul, add))
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// elem draws an integer, bool or string element type: Go type, model, bits
// (0: variable), tags.
func (s *S) elem() (string, string, int, []string) {
	switch r.Intn(9) {
	case 0:
		return "string", `cs("")`, 0, nil
	case 1:
		w := between(1, 16)
		return "bool", sp(`bl("", %d)`, w), w, []string{sp("size=%d", w)}
	}
	w := 8 * between(1, 8)
	if chance(3) {
		w = between(1, 64)
	}
	gt, gw := uGo(w, w)
	m := sp(`uN(%d, "", %d)`, gw, w)
	if chance(4) {
		gt = strings.TrimPrefix(gt, "u")
		m = sp(`iN(%d, "", %d)`, gw, w)
	}
	if chance(8) {
		gt = "*" + gt
	}
	return gt, m, w, []string{sp("size=%d", w)}
}

// whole makes a field of whole bytes, of any kind with a definite end.
func (s *S) whole(unaligned bool) *F {
	f := &F{name: s.t.fname()}
	k := r.Intn(14)
	if s.depth >= 3 && k >= 9 {
		k = r.Intn(9)
	}
	unaligned = unaligned || s.skew
	if k == 12 && unaligned { // bounded structs stay on byte boundaries
		k = 9
	}
	switch k {
	case 0:
		f.goType = pick("string", "string", "MyString", "*string")
		f.model = sp("cs(%q)", f.name)
		if chance(3) {
			f.tags = append(f.tags, "string")
		}
	case 1:
		f.goType = pick("uint32", "uint64", "uint")
		f.model = sp("fld(%q, KVarint)", f.name)
		f.tags = append(f.tags, "varint")
		f.mods += ".goBits(" + map[string]string{"uint32": "32", "uint64": "64", "uint": "64"}[f.goType] + ")"
		s.numFmt(f)
	case 2, 3: // byte arrays
		n := between(1, 20)
		el := pick("byte", "uint8", "byte", "MyByte")
		f.tags = append(f.tags, "size=8")
		f.model = sp("byA(%q, %%d)", f.name)
		switch r.Intn(6) {
		case 0:
			f.tags = append(f.tags, "string")
			f.mods += ".fmt('s')"
		case 1:
			n = 16
			f.tags = append(f.tags, "uuid")
			f.mods += ".fmt('u')"
		case 2:
			f.tags = append(f.tags, "dec")
			f.mods += ".fmt('d')"
		case 3:
			f.tags = append(f.tags, "hex")
		case 4:
			if chance(6) {
				n = 0
			}
		}
		f.model = sp(f.model, n)
		f.goType = sp("[%d]%s", n, el)
	case 4, 5: // byte slices
		f.goType = pick("[]byte", "[]byte", "[]uint8", "[]MyByte", "MyBytes")
		f.tags = append(f.tags, "size=8")
		f.model = sp("bySl(%q)", f.name)
		switch r.Intn(5) {
		case 0:
			f.tags = append(f.tags, "string")
			f.mods += ".fmt('s')"
		case 1:
			f.tags = append(f.tags, "dec")
			f.mods += ".fmt('d')"
		case 2:
			f.tags = append(f.tags, "hex")
			f.mods += ".fmt('x')"
		}
		s.length(f, 1)
	case 6, 7: // slices of simple elements
		gt, m, w, tg := s.elem()
		k := 1
		if w != 0 {
			k = 8 / gcd(w, 8)
		}
		f.goType = "[]" + gt
		f.model = sp("sl(%q, %s)", f.name, m)
		f.tags = append(f.tags, tg...)
		if w != 0 && !strings.HasSuffix(gt, "bool") {
			s.numFmt(f)
		}
		s.length(f, k)
		if chance(12) && !strings.HasPrefix(gt, "*") {
			f.goType = "*" + f.goType
		}
	case 8: // arrays of arrays, arrays and slices of strings, slices of arrays
		switch r.Intn(9) / 2 {
		case 4: // elements without fields
			a := between(0, 3)
			f.goType = sp("[%d]struct{}", a)
			f.model = sp("arr(%q, %d, st(\"\", def(\"empty\")))", f.name, a)
		case 0:
			a, b := between(1, 3), between(1, 3)
			w := 8 * between(1, 4)
			gt, gw := uGo(w, w)
			f.goType = sp("[%d][%d]%s", a, b, gt)
			f.tags = append(f.tags, sp("size=%d", w))
			f.model = sp("arr(%q, %d, arr(\"\", %d, uN(%d, \"\", %d)))", f.name, a, b, gw, w)
			s.numFmt(f)
		case 1:
			a := between(1, 4)
			f.goType = sp("[%d]string", a)
			f.model = sp("arr(%q, %d, cs(\"\"))", f.name, a)
		case 2:
			b := between(1, 4)
			w := 8 * between(1, 4)
			gt, gw := uGo(w, w)
			f.goType = sp("[][%d]%s", b, gt)
			f.tags = append(f.tags, sp("size=%d", w))
			f.model = sp("sl(%q, arr(\"\", %d, uN(%d, \"\", %d)))", f.name, b, gw, w)
			s.length(f, 1)
			s.numFmt(f)
		case 3: // slice of slices: both levels have the same length
			w := 8 * between(1, 4)
			gt, gw := uGo(w, w)
			f.goType = sp("[][]%s", gt)
			n := between(0, 4)
			f.tags = append(f.tags, sp("size=%d", w), sp("len=%d", n))
			el := sp("sl(\"\", uN(%d, \"\", %d)).lenC(%d)", gw, w, n)
			f.model = sp("sl(%q, %s).lenC(%d)", f.name, el, n)
			if w == 8 && gw == 8 {
				f.model = sp("sl(%q, bySl(\"\").lenC(%d)).lenC(%d)", f.name, n, n)
			}
		}
	case 9, 10: // nested struct
		n := s.nested(between(1, 4), chance(3), unaligned)
		f.goType, f.model = n.goName, sp("st(%q, %s)", f.name, n.def())
		switch {
		case chance(3) && !n.own:
			f.tags = append(f.tags, "extend")
			f.model = sp("ext(%q, %s)", f.name, n.def())
		}
		if chance(4) {
			f.goType = "*" + f.goType
			f.mods += ".ptr()"
		}
	case 11, 13: // arrays and slices of structs
		n := s.nested(between(1, 3), chance(3), unaligned)
		star, p := "", ""
		if chance(4) {
			star, p = "*", ".ptr()"
		}
		if chance(4) {
			c := between(1, 3)
			f.goType = sp("[%d]%s%s", c, star, n.goName)
			f.model = sp("arr(%q, %d, st(\"\", %s)%s)", f.name, c, n.def(), p)
		} else {
			f.goType = sp("[]%s%s", star, n.goName)
			f.model = sp("sl(%q, st(\"\", %s)%s)", f.name, n.def(), p)
			s.length(f, 1)
		}
	case 12: // struct of a stated size
		s.bounded(f)
	}
	return f
}

// nested makes a struct of whole bytes.
func (s *S) nested(units int, own, skew bool) *S {
	s.t.ns++
	n := &S{t: s.t, goName: sp("%sS%d", s.t.name, s.t.ns), own: own, depth: s.depth + 1, skew: skew, hooks: map[string][]string{}}
	n.fill(units)
	n.finish()
	return n
}

// bounded makes a struct confined to a size, with a filler up to that size.
func (s *S) bounded(f *F) {
	s.t.ns++
	n := &S{t: s.t, goName: sp("%sS%d", s.t.name, s.t.ns), depth: s.depth + 1, hooks: map[string][]string{}}
	head := between(0, 3)
	for _, x := range n.run(head * 8) {
		n.add(x, false)
	}
	size, model := 0, ""
	cs := s.counters()
	dyn := len(cs) > 0 && s.scope() == s && chance(2)
	if dyn {
		c := cs[r.Intn(len(cs))]
		mod, add := between(2, 12), head+between(0, 4)
		if add == 0 {
			add = 1
		}
		g, _ := s.ref(c)
		s.hook("GetFieldSize", f.name, sp("uint(%s%%%d+%d) * 8", g, mod, add))
		f.tags = append(f.tags, "size=dynamic")
		model = sp("int64(e.at(@UP, %q).U%%%d + %d)", c.name, mod, add)
	} else {
		size = head + between(0, 9)
		if size == 0 {
			size = 1
		}
		f.tags = append(f.tags, sp("size=%d", size*8))
		model = sp("%d", size)
	}
	if size == 0 || size > head {
		x := &F{name: n.t.fname()}
		want := sp("%s - %d", strings.ReplaceAll(model, "@UP", "1"), head)
		switch {
		case size != 0 && chance(4):
			x.goType, x.model = "[]uint8", sp("sl(%q, u8(\"\", 4)).align(4).fixed(func(e *Env) int64 { return 2 * (%s) })", x.name, want)
			x.tags = []string{"size=4"}
		case chance(4):
			x.goType, x.model = "string", sp("cs(%q).fixed(func(e *Env) int64 { return %s - 1 })", x.name, want)
			if dyn || size == head+0 {
				x.goType, x.model = "[]byte", sp("bySl(%q).fixed(func(e *Env) int64 { return %s })", x.name, want)
				x.tags = []string{"size=8"}
			}
		default:
			x.goType, x.model = "[]byte", sp("bySl(%q).fixed(func(e *Env) int64 { return %s })", x.name, want)
			x.tags = []string{"size=8"}
		}
		n.add(x, false)
	}
	n.finish()
	f.model = sp("st(%q, %s)", f.name, n.def())
	f.mods += sp(".size(func(e *Env) int64 { return %s })", strings.ReplaceAll(model, "@UP", "0"))
	f.goType = n.goName
	if !dyn && chance(3) {
		f.goType = "[]" + f.goType
		inner := f.model
		inner = strings.Replace(inner, sp("st(%q", f.name), `st(""`, 1)
		f.model = sp("sl(%q, %s)", f.name, inner+f.mods)
		f.mods = ""
		s.length(f, 1)
	}
}

// unit adds one group of fields that takes whole bytes.
func (s *S) unit() {
	var group []*F
	switch k := r.Intn(10); {
	case k < 4:
		n := 8 * between(1, 8)
		if chance(6) {
			n = 8 * between(9, 30)
		}
		group = s.run(n)
	case k < 5:
		group = []*F{s.countField(8 * between(1, 2))}
	case k < 6 && s.depth < 3: // bits, something, bits
		a := between(1, 7)
		group = s.run(a)
		for i := between(1, 2); i > 0; i-- {
			group = append(group, s.whole(true))
		}
		group = append(group, s.run(8-a)...)
	default:
		group = []*F{s.whole(false)}
	}
	s.present(group)
}

// present draws a presence rule and gives it to a group of fields.
func (s *S) present(group []*F) {
	if chance(3) {
		var tags []string
		mods := ""
		dynamic := false
		vers := s.t.vers
		ver := func() int {
			if len(vers) > 0 && !chance(4) {
				return vers[r.Intn(len(vers))]
			}
			return between(0, 3)
		}
		flag := func() (string, uint32) {
			b := []uint32{1, 2, 4, 8, 0x10, 0x20, 0x100, 0x200, 0x400, 0x800, 0x10000, 0x800000}[r.Intn(12)]
			if chance(3) {
				b |= uint32(1) << uint(r.Intn(24))
			}
			switch r.Intn(3) {
			case 0:
				return sp("%d", b), b
			case 1:
				return sp("0x%06x", b), b
			}
			return sp("0x%X", b), b
		}
		k := r.Intn(8)
		if k == 0 || k == 5 {
			v := ver()
			tags = append(tags, sp("ver=%d", v))
			mods += sp(".ver(%d)", v)
		}
		if k == 1 {
			v := ver()
			tags = append(tags, sp("nver=%d", v))
			mods += sp(".nver(%d)", v)
		}
		if k == 2 || k == 5 || k == 6 {
			t, v := flag()
			tags = append(tags, "opt="+t)
			mods += sp(".opt(%d)", v)
		}
		if k == 3 || k == 6 {
			t, v := flag()
			tags = append(tags, "nopt="+t)
			mods += sp(".nopt(%d)", v)
		}
		var gx, mx string
		if k == 4 || k == 7 {
			dynamic = true
			gx, mx = s.cond()
			tags = append(tags, "opt=dynamic")
			if k == 7 {
				t, v := flag()
				tags = append(tags, "nopt="+t)
				mods += sp(".nopt(%d)", v)
			}
		}
		for _, f := range group {
			f.tags = append(f.tags, tags...)
			f.mods += mods
			if dynamic {
				f.mods += sp(".cond(func(e *Env) bool { return %s })", mx)
				s.hook("IsOptFieldEnabled", f.name, gx)
			}
			s.add(f, true)
		}
		return
	}
	for _, f := range group {
		s.add(f, false)
	}
}

// cond draws a dynamic presence condition.
func (s *S) cond() (string, string) {
	cs := s.counters()
	if len(cs) > 0 && !chance(4) {
		c := cs[r.Intn(len(cs))]
		g, m := s.ref(c)
		switch r.Intn(3) {
		case 0:
			return sp("%s&1 == 1", g), sp("%s&1 == 1", m)
		case 1:
			return sp("%s&1 == 0", g), sp("%s&1 == 0", m)
		default:
			n := between(0, 3)
			return sp("%s > %d", g, n), sp("%s > %d", m, n)
		}
	}
	if s.scope().box && s.t.full && chance(2) {
		if chance(2) {
			return "b.GetVersion() == 1", "e.Ver == 1"
		}
		return "b.GetFlags()&5 != 0", "e.Flags&5 != 0"
	}
	c := pick("IsQuickTimeCompatible", "UnderWave", "UnderUdta", "UnderIlst")
	return "ctx." + c, "e.Ctx." + c
}

func (s *S) add(f *F, conditional bool) {
	if f.count && !conditional {
		s.sel = append(s.sel, f)
	}
	if chance(12) && !f.count {
		if chance(2) {
			f.tags = append(f.tags, "hidden")
			f.mods += ".hid()"
		} else if !strings.Contains(f.model, "ext(") {
			f.tags = append(f.tags, "const="+pick("0", "1", "0xff"))
			f.mods += ".cnst()"
		}
	}
	s.fields = append(s.fields, f)
}

func (s *S) fill(units int) {
	for i := 0; i < units; i++ {
		s.unit()
	}
}

func (s *S) def() string { return "d" + s.goName }

// finish emits the type, its hooks and its model definition.
func (s *S) finish() {
	t := s.t
	// order numbers: non-decreasing along the wire
	n := between(0, 2)
	if s.box && t.full {
		n = between(0, 3)
	}
	first := n
	for _, f := range s.fields {
		n += []int{0, 0, 1, 1, 1, 2, 5, 10}[r.Intn(8)]
		f.order = n
	}
	style := r.Intn(4)
	if style == 0 { // all ties: declaration order is wire order
		for _, f := range s.fields {
			f.order = first
		}
	}
	decl := append([]*F(nil), s.fields...)
	if style >= 2 {
		var last *F
		if len(decl) > 0 && strings.HasPrefix(decl[len(decl)-1].model, "boxs(") {
			last = decl[len(decl)-1]
			decl = decl[:len(decl)-1]
		}
		r.Shuffle(len(decl), func(i, j int) { decl[i], decl[j] = decl[j], decl[i] })
		// ties keep their relative order
		idx := map[*F]int{}
		for i, f := range s.fields {
			idx[f] = i
		}
		pos := map[int][]int{}
		for i, f := range decl {
			pos[f.order] = append(pos[f.order], i)
		}
		out := make([]*F, len(decl))
		for _, ps := range pos {
			var fs []*F
			for _, p := range ps {
				fs = append(fs, decl[p])
			}
			sort.Slice(fs, func(a, b int) bool { return idx[fs[a]] < idx[fs[b]] })
			for i, p := range ps {
				out[p] = fs[i]
			}
		}
		decl = out
		if last != nil {
			decl = append(decl, last)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "type %s struct {\n", s.goName)
	switch {
	case s.box && t.full:
		fmt.Fprintf(&b, "\tmp4.FullBox `mp4:\"%d,extend\"`\n", first)
	case s.box && t.any:
		fmt.Fprintf(&b, "\tmp4.AnyTypeBox\n")
	case s.box:
		fmt.Fprintf(&b, "\tmp4.Box\n")
	case s.own:
		fmt.Fprintf(&b, "\tmp4.BaseCustomFieldObject\n")
	}
	for i, f := range decl {
		if chance(15) {
			fmt.Fprintf(&b, "\tX%d_%d %s\n", t.ns, i, pick("int", "string", "[]byte", "map[string]int", "*float64"))
		}
		fmt.Fprintf(&b, "\t%s %s `mp4:%q`\n", f.name, f.goType, f.tag())
	}
	b.WriteString("}\n\n")
	if s.own || s.box {
		for _, k := range []string{"GetFieldSize", "GetFieldLength", "IsOptFieldEnabled"} {
			if len(s.hooks[k]) == 0 {
				continue
			}
			ret := "uint"
			if k == "IsOptFieldEnabled" {
				ret = "bool"
			}
			fmt.Fprintf(&b, "func (b *%s) %s(name string, ctx mp4.Context) %s {\n\tswitch name {\n%s\t}\n\tpanic(\"%s: unexpected field \" + name)\n}\n\n",
				s.goName, k, ret, strings.Join(s.hooks[k], ""), s.goName+"."+k)
		}
	}
	t.decls = append(t.decls, b.String())
	b.Reset()
	if s.box {
		return
	}
	fmt.Fprintf(&b, "var d%s = def(%q,\n", s.goName, s.goName)
	for _, f := range s.fields {
		fmt.Fprintf(&b, "\t%s%s,\n", f.model, f.mods)
	}
	b.WriteString(")\n\n")
	t.decls = append(t.decls, b.String())
}

func (f *F) tag() string {
	parts := append([]string{sp("%d", f.order)}, f.tags...)
	if chance(4) {
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	sep := ","
	switch r.Intn(8) {
	case 0:
		sep = ", "
	case 1:
		sep = " , "
	}
	tag := strings.Join(parts, sep)
	if chance(12) {
		tag = strings.ReplaceAll(tag, "=", " = ")
	}
	return tag
}

// last adds a field that reaches to the end of the payload.
func (s *S) last() {
	f := &F{name: s.t.fname()}
	s.t.open = true
	switch r.Intn(9) {
	case 0:
		f.goType = pick("string", "MyString")
		f.model = sp("boxs(%q)", f.name)
		f.tags = append(f.tags, "boxstring")
	case 1, 2:
		f.goType = pick("[]byte", "[]uint8", "[]MyByte")
		f.model = sp("bySl(%q)", f.name)
		f.tags = append(f.tags, "size=8")
		if chance(3) {
			f.tags = append(f.tags, "string")
			f.mods += ".fmt('s')"
		}
	case 3, 4:
		w := 8 * between(1, 8)
		gt, gw := uGo(w, w)
		if gt == "uint8" {
			w, gt, gw = 16, "uint16", 16
		}
		f.goType = "[]" + gt
		f.tags = append(f.tags, sp("size=%d", w))
		f.model = sp("sl(%q, uN(%d, \"\", %d)).align(%d)", f.name, gw, w, w)
		s.numFmt(f)
	case 5:
		w := pick("1", "2", "4")
		f.goType = "[]uint8"
		f.tags = append(f.tags, "size="+w)
		k := map[string]int{"1": 8, "2": 4, "4": 2}[w]
		f.model = sp("sl(%q, u8(\"\", %s)).align(%s).times(%d)", f.name, w, w, k)
	case 6:
		n := s.nested(between(1, 2), chance(3), false)
		f.goType = "[]" + n.goName
		f.model = sp("sl(%q, st(\"\", %s))", f.name, n.def())
		// an element may be empty; make sure it is not
		if !n.solid() {
			f.goType = "[]string"
			f.model = sp("sl(%q, cs(\"\"))", f.name)
		}
	case 7:
		f.goType = "[]string"
		f.model = sp("sl(%q, cs(\"\"))", f.name)
	case 8: // open-ended or not, decided by a counter
		cs := s.counters()
		f.goType = "[]byte"
		f.tags = append(f.tags, "size=8")
		f.model = sp("bySl(%q)", f.name)
		if len(cs) > 0 {
			c := cs[r.Intn(len(cs))]
			g, m := s.ref(c)
			f.tags = append(f.tags, "len=dynamic")
			s.hook("GetFieldLength", f.name, sp("unlimitedIf(%s&1 == 0, uint(%s))", g, g))
			f.mods += sp(".lenf(func(e *Env) int64 { if %s&1 == 0 { return toEnd }; return int64(%s) })", m, m)
		}
	}
	s.fields = append(s.fields, f)
}

// solid says whether the struct surely takes at least one byte.
func (s *S) solid() bool {
	for _, f := range s.fields {
		if !strings.Contains(f.mods, ".ver(") && !strings.Contains(f.mods, ".nver(") && !strings.Contains(f.mods, "opt(") && !strings.Contains(f.mods, ".cond(") &&
			(strings.HasPrefix(f.model, "uN(") || strings.HasPrefix(f.model, "iN(") || strings.HasPrefix(f.model, "cs(") || strings.HasPrefix(f.model, "bl(")) {
			return true
		}
	}
	return false
}

func makeType(i, n int) *T {
	t := &T{name: sp("U%04d", i)}
	t.code = sp("Z%c%c%c", 'A'+i/676%26, 'a'+i/26%26, '0'+i%26)
	level := 1 + i*8/n // structures grow with the index
	if i%2 == 0 {
		t.full = true
		switch r.Intn(6) {
		case 0, 1:
		case 2:
			t.vers = []int{0}
		case 3, 4:
			t.vers = []int{0, 1}
		case 5:
			t.vers = [][]int{{1}, {0, 2}, {0, 1, 2, 3}, {1, 7}, {0, 254}}[r.Intn(5)]
		}
	} else {
		t.any = chance(4)
	}
	if i%16 == 5 {
		t.bad = true
	}
	s := &S{t: t, goName: t.name, box: true, hooks: map[string][]string{}}
	t.root = s
	if chance(2) {
		s.add(s.countField(8*between(1, 2)), false)
	}
	s.fill(between(1, level))
	if t.bad {
		for _, f := range s.run(8*r.Intn(2) + between(1, 7)) {
			s.add(f, false)
		}
	} else if chance(3) {
		s.last()
	}
	s.finish()
	return t
}

func main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 400, "number of box structures")
	out := flag.String("o", "", "output file")
	flag.Parse()
	r = rand.New(rand.NewSource(*seed*7919 + 13))
	var b bytes.Buffer
	b.WriteString("package main\n\n// Code generated by gentypes. DO NOT EDIT.\n\nimport (\n\tmp4 \"github.com/abema/go-mp4\"\n)\n\n")
	b.WriteString("type (\n\tMyByte uint8\n\tMyBytes []byte\n\tMyString string\n\tMyBool bool\n\tMyUint8 uint8\n\tMyUint16 uint16\n\tMyUint32 uint32\n\tMyUint64 uint64\n\tMyInt8 int8\n\tMyInt16 int16\n\tMyInt32 int32\n\tMyInt64 int64\n)\n\n")
	b.WriteString("func unlimitedIf(c bool, n uint) uint {\n\tif c {\n\t\treturn mp4.LengthUnlimited\n\t}\n\treturn n\n}\n\n")
	for i := 0; i < *n; i++ {
		t := makeType(i, *n)
		src := strings.Join(t.decls, "")
		b.WriteString(src)
		if !t.any {
			fmt.Fprintf(&b, "func (*%s) GetType() mp4.BoxType { return mp4.StrToBoxType(%q) }\n\n", t.name, t.code)
		}
		fmt.Fprintf(&b, "func init() {\n")
		nf := sp("func() mp4.IBox { return &%s{} }", t.name)
		if t.full {
			vs := "nil"
			if t.vers != nil {
				vs = strings.Replace(sp("%#v", t.vers), "[]int", "[]int", 1)
			}
			fmt.Fprintf(&b, "\ts := userFull(%q, %q, %s, %s,\n", t.name, t.code, nf, vs)
		} else {
			fmt.Fprintf(&b, "\ts := userBox(%q, %q, %s,\n", t.name, t.code, nf)
		}
		for _, f := range t.root.fields {
			fmt.Fprintf(&b, "\t\t%s%s,\n", f.model, f.mods)
		}
		b.WriteString("\t)\n")
		fmt.Fprintf(&b, "\ts.Open, s.Any, s.Misfit = %v, %v, %v\n", t.open, t.any, t.bad)
		vers := ""
		for _, v := range t.vers {
			vers += sp(", %d", v)
		}
		fmt.Fprintf(&b, "\tuserRegister(%q, func() {\n", t.name)
		switch {
		case t.any && chance(2):
			fmt.Fprintf(&b, "\tmp4.AddAnyTypeBoxDef(&%s{}, mp4.StrToBoxType(%q)%s)\n", t.name, t.code, vers)
		case t.any:
			fmt.Fprintf(&b, "\tmp4.AddAnyTypeBoxDefEx(&%s{}, mp4.StrToBoxType(%q), func(mp4.Context) bool { return true }%s)\n", t.name, t.code, vers)
		case chance(4):
			fmt.Fprintf(&b, "\tmp4.AddBoxDefEx(&%s{}, func(mp4.Context) bool { return true }%s)\n", t.name, vers)
		default:
			fmt.Fprintf(&b, "\tmp4.AddBoxDef(&%s{}%s)\n", t.name, vers)
		}
		b.WriteString("\t})\n")
		fmt.Fprintf(&b, "\tuserSource[%q] = %q\n", t.name, src)
		b.WriteString("}\n\n")
	}
	if *out == "" {
		os.Stdout.Write(b.Bytes())
		return
	}
	if err := os.WriteFile(*out, b.Bytes(), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
