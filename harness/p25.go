package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C25", Level: "exploration",
		Rule:        "at least one box of the type exists, or the input has to be refused",
		Assumptions: []string{"table and descriptor boxes (the types dump lists as having no children) hold no boxes", "a type beginning with a minus sign is given after --"},
		Subs: []Sub{
			{Name: "boxes", N: 20000, F: func(c *Case) { c25Run(c, false) }},
			{Name: "large", N: 800, F: large(2000, func(c *Case) { c25Run(c, false) })},
			{Name: "fat", N: 800, F: fat(func(c *Case) { c25Run(c, false) })},
			{Name: "huge", N: 2000, F: c25Huge},
			{Name: "vast", N: 1, Quick: 1, Thorough: 4, CPULimit: 300 * time.Second, F: c25Vast},
			{Name: "errors", N: 4000, F: func(c *Case) { c25Errors(c, false) }},
			{Name: "binary", N: 300, F: func(c *Case) {
				if c.Chance(4) {
					c25Errors(c, true)
				} else {
					c25Run(c, true)
				}
			}},
		},
	})
	register(&Prop{
		ID: "C26", Level: "exploration",
		Rule:        "the file has at least two boxes, or has to be refused",
		Assumptions: []string{"the flags of numbered metadata items are zero (known finding of C17)", "the terminal is the default 180 columns wide (no terminal)", "table and descriptor boxes hold no boxes"},
		Subs: []Sub{
			{Name: "tree", N: 20000, F: func(c *Case) { c26Run(c, false) }},
			{Name: "huge", N: 2000, F: c26Huge},
			{Name: "large", N: 800, F: large(1500, func(c *Case) { c26Run(c, false) })},
			{Name: "fat", N: 600, F: fat(func(c *Case) { c26Run(c, false) })},
			{Name: "errors", N: 4000, F: func(c *Case) { cliErrors(c, false, "dump") }},
			{Name: "binary", N: 300, F: func(c *Case) {
				if c.Chance(5) {
					cliErrors(c, true, "dump")
				} else {
					c26Run(c, true)
				}
			}},
		},
	})
	register(&Prop{
		ID: "C27", Level: "exploration",
		Rule:        "a box is dropped, a decode time is set, or a file with nested boxes is copied; or the input has to be refused",
		Assumptions: []string{"payloads are in canonical encoding, of supported versions, without left-over bytes", "the decode time fits the field of every tfdt box of the file"},
		Subs: []Sub{
			{Name: "edits", N: 16000, F: func(c *Case) { c27Run(c, false, false) }},
			{Name: "huge", N: 2000, F: func(c *Case) { c27Run(c, false, true) }},
			{Name: "large", N: 800, F: large(2000, func(c *Case) { c27Run(c, false, false) })},
			{Name: "fat", N: 800, F: fat(func(c *Case) { c27Run(c, false, false) })},
			{Name: "errors", N: 4000, F: func(c *Case) { cliErrors(c, false, "edit") }},
			{Name: "binary", N: 300, F: func(c *Case) {
				if c.Chance(5) {
					cliErrors(c, true, "edit")
				} else {
					c27Run(c, true, false)
				}
			}},
		},
	})
	register(&Prop{
		ID: "C30", Level: "exploration",
		Rule:        "at least one pssh box at the listed levels, or the input has to be refused",
		Assumptions: []string{"pssh boxes at the listed levels are of supported versions"},
		Subs: []Sub{
			{Name: "list", N: 20000, F: func(c *Case) { c30Run(c, false, false) }},
			{Name: "huge", N: 2000, F: func(c *Case) { c30Run(c, false, true) }},
			{Name: "large", N: 400, F: large(1000, func(c *Case) { c30Run(c, false, false) })},
			{Name: "fat", N: 500, F: fat(func(c *Case) { c30Run(c, false, false) })},
			{Name: "errors", N: 1500, F: func(c *Case) { c30Errors(c, false) }},
			{Name: "binary", N: 300, F: func(c *Case) { c30Run(c, true, false) }},
		},
	})
}

// noKids are the types the tool knows to hold no boxes.
var noKids = map[mp4.BoxType]bool{}

func init() {
	for _, t := range []string{"emsg", "esds", "ftyp", "pssh", "ctts", "co64", "elst", "sbgp", "sdtp", "stco", "stsc", "stts", "stss", "stsz", "tfra", "trun"} {
		noKids[bt(t)] = true
	}
}

// runCmd runs a command in process or through the built binary.
func runCmd(c *Case, binary bool, cmd string, args ...string) toolRun {
	c.Note("command", fmt.Sprintf("%s %q", cmd, args))
	var t toolRun
	if !binary {
		t = runTool(cmd, args...)
	} else {
		exe := os.Getenv("PBT_MP4TOOL")
		if exe == "" {
			panic("PBT_MP4TOOL is not set")
		}
		a := []string{cmd}
		if cmd == "edit" || cmd == "divide" {
			a = []string{"alpha", cmd}
		}
		x := exec.Command(exe, append(a, args...)...)
		var out, errb bytes.Buffer
		x.Stdout, x.Stderr = &out, &errb
		err := x.Run()
		t.out = out.Bytes()
		if err != nil {
			ee, ok := err.(*exec.ExitError)
			if !ok {
				panic(fmt.Sprintf("generator: cannot run mp4tool: %v", err))
			}
			t.status = ee.ExitCode()
			if strings.Contains(errb.String(), "goroutine ") {
				t.crash = errb.String()
			}
		}
	}
	if t.crash != "" {
		c.Failf("mp4tool %s %q: %s", cmd, args, t.crash)
	}
	return t
}

func typeText(t mp4.BoxType) string {
	s := ""
	for _, b := range t {
		switch {
		case b == 0xa9:
			s += "(c)"
		case b >= 0x20 && b <= 0x7e:
			s += string(rune(b))
		default:
			return fmt.Sprintf("0x%x", t[:])
		}
	}
	return s
}

// pickType draws a type, mostly one that occurs.
func pickType(c *Case, all []*node) mp4.BoxType {
	if len(all) > 0 && !c.Chance(8) {
		n := all[c.Pick(len(all))]
		if c.Chance(3) {
			// prefer one that is inside another of its kind
			for _, x := range all {
				for p := x.parent; p != nil; p = p.parent {
					if p.typ == x.typ {
						return x.typ
					}
				}
			}
		}
		return n.typ
	}
	return anyType(c)
}

// cliFile draws a file for a command.
func cliFile(c *Case, set func(f *fileGen), big bool) ([]*node, *sparse) {
	f := newFileGen(c)
	f.leaf = true
	f.ctxy = c.Bool()
	if set != nil {
		set(f)
	}
	ns := f.file()
	if big && c.big == 0 && c.Chance(6) {
		// data that spans the blocks the commands read
		for _, n := range allNodes(ns) {
			if (n.spec == nil || n.typ == bt("mdat")) && len(n.kids) == 0 && c.Bool() {
				n.zeros = uint64(c.Pick(300000))
			}
		}
		layout(ns, 0, nil)
	}
	file := render(ns)
	c.Note("tree", func() string { return nodesString(ns) })
	if file.size < 1<<16 {
		c.Note("file", func() string { return fmt.Sprintf("hex:%x", file.bytes()) })
	}
	return ns, file
}

func nested(ns []*node) bool {
	for _, n := range ns {
		if len(n.kids) > 0 {
			return true
		}
	}
	return false
}

// ---- extract ----

func c25Run(c *Case, binary bool) {
	ns, file := cliFile(c, nil, true)
	all := allNodes(ns)
	t := pickType(c, all)
	if binary && bytes.IndexByte(t[:], 0) >= 0 {
		t = bt("mdat")
	}
	if len(all) > 0 && c.Chance(6) {
		// a box of the type within another one
		outer := all[c.Pick(len(all))]
		if !noKids[outer.typ] && outer.readable() && len(outer.kids) > 0 && !outer.toEOF {
			outer.kids = append(outer.kids, &node{typ: outer.typ, hdr: 8, ctx: outer.kids[0].ctx, pay: c.Bytes(c.Small(20))})
			k := outer.kids[len(outer.kids)-1]
			k.ctx = inside(outer.typ, outer.ctx)
			for _, x := range outer.kids[:len(outer.kids)-1] {
				k.ctx = after(x, k.ctx, false)
			}
			k.spec = specFor(k.typ, k.ctx)
			if k.spec != nil {
				k.pay = nil
				if v, n, err := k.spec.Decode(outer.pay, k.ctx); err == nil && n == len(outer.pay) {
					k.pay, k.val = outer.pay, v
				} else {
					outer.kids = outer.kids[:len(outer.kids)-1]
				}
			}
			layout(ns, 0, nil)
			file = render(ns)
			t = outer.typ
			all = allNodes(ns)
		}
	}
	name := writeSparse("in.mp4", file)
	var want []byte
	hits, deep := 0, false
	walkNodes(ns, func(n *node, d int) {
		if n.typ == t {
			want = append(want, file.slice(n.off, n.end())...)
			hits++
			deep = deep || d > 1
			c.ClassIf(n.badVer, "unsupported version")
			c.ClassIf(n.spec == nil, "unsupported type")
			c.ClassIf(n.toEOF, "to end of file")
		}
	})
	c.Note("type", fmt.Sprintf("%q", t[:]))
	if len(want) > 32<<20 {
		return
	}
	args := []string{string(t[:]), name}
	if t[0] == '-' || c.Chance(4) {
		args = append([]string{"--"}, args...)
	}
	r := runCmd(c, binary, "extract", args...)
	if r.status != 0 {
		c.Failf("extracting %q: status %d: %s", t[:], r.status, tail(r.out))
	}
	if !bytes.Equal(r.out, want) {
		c.Failf("extracting %q gave %d bytes, want %d (%d boxes)%s", t[:], len(r.out), len(want), hits, firstDiff(r.out, want))
	}
	c.Class(fmt.Sprintf("hits %d", min(hits, 4)))
	c.ClassIf(deep, "hit at depth 2 or more")
	if hits > 0 {
		c.NonTrivial(t[:], want)
	}
}

// c25Huge extracts small boxes of files with a large one.
func c25Huge(c *Case) {
	f := newFileGen(c)
	f.leaf = true
	ns, file, big := vastFile(c, f)
	// extract decodes boxes of a known type, their whole data included
	big.typ, big.spec = bt("zzzz"), nil
	layout(ns, 0, nil)
	file = render(ns)
	t := pickType(c, allNodes(ns))
	var want []byte
	for _, n := range allNodes(ns) {
		if n.typ != t {
			continue
		}
		if n.size > 32<<20 {
			return
		}
		want = append(want, file.slice(n.off, n.end())...)
		c.ClassIf(n.off > big.off, "behind the large box")
	}
	c.Note("type", fmt.Sprintf("%q", t[:]))
	r := runCmd(c, false, "extract", "--", string(t[:]), writeSparse("in.mp4", file))
	if r.status != 0 {
		c.Failf("extracting %q: status %d: %s", t[:], r.status, tail(r.out))
	}
	if !bytes.Equal(r.out, want) {
		c.Failf("extracting %q gave %d bytes, want %d%s", t[:], len(r.out), len(want), firstDiff(r.out, want))
	}
}

// c25Vast extracts a box of 4 GiB.
func c25Vast(c *Case) {
	data := c.Bytes(c.Int(1, 100))
	n := &node{typ: bt("zzzz"), hdr: 16, zeros: 1<<32 + uint64(c.Int(0, 100))}
	n.trail = data
	ns := []*node{{typ: bt("free"), spec: specNamed("free"), hdr: 8}, n, {typ: bt("free"), spec: specNamed("free"), hdr: 8}}
	layout(ns, 0, nil)
	name := writeSparse("in.mp4", render(ns))
	c.Note("size", n.size)
	c.NonTrivial(n.size)
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	var head, last []byte
	total := uint64(0)
	done := make(chan bool)
	go func() {
		defer close(done)
		buf := make([]byte, 1<<20)
		for {
			k, err := pr.Read(buf)
			total += uint64(k)
			if len(head) < 16 {
				head = append(head, buf[:min(k, 16-len(head))]...)
			}
			last = append(last, buf[max(0, k-len(data)):k]...)
			last = last[max(0, len(last)-len(data)):]
			if err != nil {
				return
			}
		}
	}()
	keep := os.Stdout
	os.Stdout = pw
	status := func() int {
		defer func() {
			os.Stdout = keep
			pw.Close()
		}()
		return tools["extract"]([]string{"zzzz", name})
	}()
	<-done
	pr.Close()
	if status != 0 || total != n.size {
		c.Failf("extracting a box of %d bytes: status %d, %d bytes of output", n.size, status, total)
	}
	if !bytes.Equal(head, n.header()) || !bytes.Equal(last, data) {
		c.Failf("extracting a box of %d bytes: it begins with %x and ends in %x, want %x and %x", n.size, head, last, n.header(), data)
	}
}

func tail(b []byte) string {
	if len(b) > 300 {
		b = b[len(b)-300:]
	}
	return fmt.Sprintf("%q", b)
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-40)
	return fmt.Sprintf(", first difference at %d:\n%q\nwant\n%q", i, a[lo:min(len(a), i+120)], b[lo:min(len(b), i+120)])
}

func c25Errors(c *Case, binary bool) {
	if !c.Chance(3) {
		cliErrors(c, binary, "extract")
		return
	}
	_, file := cliFile(c, nil, false)
	name := writeSparse("in.mp4", file)
	n := c.Pick(9)
	if n == 4 {
		n = 5
	}
	b := c.Bytes(n)
	for i := range b {
		b[i] = 'a' + b[i]%26
	}
	c.NonTrivial("length", b)
	c.Class("wrong type length")
	r := runCmd(c, binary, "extract", string(b), name)
	if r.status == 0 {
		c.Failf("the type %q is accepted", b)
	}
	if len(r.out) > 0 && n > 0 && bytes.Contains(r.out, file.bytes()) && file.size > 0 {
		c.Failf("the type %q gives output", b)
	}
}

// cliErrors gives a command a missing or malformed file.
func cliErrors(c *Case, binary bool, cmd string) {
	name := "missing.mp4"
	if c.Chance(8) {
		c.Class("missing file")
		c.NonTrivial("missing", c.U64())
	} else {
		g := newFileGen(c)
		g.leaf = true
		g.noQT = c.Bool()
		if cmd == "edit" {
			g.noBad, g.canon = true, true
		}
		_, f, b := c07GenWith(c, g)
		if f == nil || f.ok {
			return
		}
		name = scratchFile("bad.mp4", b)
	}
	args := []string{name}
	switch cmd {
	case "extract":
		t := anyType(c)
		if bytes.IndexByte(t[:], 0) >= 0 || t[0] == '-' {
			t = bt("abcd")
		}
		args = []string{string(t[:]), name}
	case "edit":
		args = append(args, "out.mp4")
		if c.Bool() {
			args = append([]string{"-base_media_decode_time", "5"}, args...)
		}
	case "dump":
		if c.Bool() {
			args = append([]string{"-a"}, args...)
		}
	}
	r := runCmd(c, binary, cmd, args...)
	if r.status == 0 {
		c.Failf("%s: status 0: %s", cmd, tail(r.out))
	}
	if r.status != 1 {
		c.Failf("%s: status %d", cmd, r.status)
	}
}

// ---- dump ----

type dumpOpts struct {
	full                         map[string]bool
	all, mdat, free, offset, hex bool
}

// dumpLines gives the expected lines. A line that is too long even without a
// text may say so or not (textless).
func dumpLines(ns []*node, o *dumpOpts, file *sparse, term int, textless bool) []string {
	var out []string
	num := func(v uint64) string {
		if o.hex {
			return fmt.Sprintf("0x%x", v)
		}
		return strconv.FormatUint(v, 10)
	}
	var rec func(ns []*node, depth int)
	rec = func(ns []*node, depth int) {
		for _, n := range ns {
			name := typeText(n.typ)
			l := strings.Repeat(" ", 2*depth) + "[" + name + "]"
			if n.spec == nil {
				l += " (unsupported box type)"
			}
			if o.offset {
				l += " Offset=" + num(n.off)
			}
			l += " Size=" + num(n.size)
			hint := ` (use "-full ` + name + `" to show all)`
			full := o.full[name]
			if !full && (n.typ == bt("mdat") || n.typ == bt("free") || n.typ == bt("skip")) {
				out = append(out, l+" Data=[...]"+hint)
				continue
			}
			full = full || o.all
			if n.spec != nil && !full && n.paySize() >= 64 && noKids[n.typ] {
				out = append(out, l+" ..."+hint)
				continue
			}
			if n.readable() {
				str := n.spec.Text(n.val, n.ctx, "")
				switch {
				case str == "" && (full || !textless || len(l)+2 <= term):
				case !full && len(l)+len(str)+2 > term:
					l += " ..." + hint
				default:
					l += " " + str
				}
				out = append(out, l)
				rec(n.kids, depth+1)
				continue
			}
			if n.spec != nil {
				l += " (unsupported box version)"
			}
			if full {
				var hx []string
				for _, b := range file.slice(n.payOff(), n.end()) {
					hx = append(hx, fmt.Sprintf("0x%02x", b))
				}
				l += " Data=[" + strings.Join(hx, " ") + "]"
			} else {
				l += " Data=[...]" + hint
			}
			out = append(out, l)
		}
	}
	rec(ns, 0)
	return out
}

func drawDumpOpts(c *Case, all []*node) (*dumpOpts, []string) {
	o := &dumpOpts{full: map[string]bool{}}
	var args []string
	if c.Bool() {
		var l []string
		for i := c.Small(4); i > 0; i-- {
			switch {
			case c.Chance(3) || len(all) == 0:
				l = append(l, []string{"mdat", "free", "skip", "styp", "moov", "trun", ""}[c.Pick(7)])
			default:
				t := typeText(all[c.Pick(len(all))].typ)
				if strings.IndexByte(t, 0) < 0 {
					l = append(l, t)
				}
			}
		}
		v := strings.Join(l, ",")
		for _, x := range strings.Split(v, ",") {
			o.full[x] = true
		}
		if c.Bool() {
			args = append(args, "-full="+v)
		} else {
			args = append(args, "-full", v)
		}
	}
	flag := func(name string) bool {
		if !c.Chance(4) {
			return false
		}
		args = append(args, name)
		return true
	}
	o.all = flag("-a")
	if o.mdat = flag("-mdat"); o.mdat {
		o.full["mdat"] = true
	}
	if o.free = flag("-free"); o.free {
		o.full["free"], o.full["skip"] = true, true
	}
	o.offset = flag("-offset")
	o.hex = flag("-hex")
	return o, args
}

func zeroItemFlags(ns []*node) {
	for _, n := range allNodes(ns) {
		if n.spec != nil && n.spec.Name == "item" && n.val != nil {
			n.val.F[1].B = []byte{0, 0, 0}
			n.pay = mustEncode(n.spec, n.val, n.ctx)
		}
	}
}

func c26Run(c *Case, binary bool) {
	f := newFileGen(c)
	f.leaf = true
	f.ctxy = c.Bool()
	if c.Bool() {
		f.g.max = 20
	}
	ns := f.file()
	zeroItemFlags(ns)
	layout(ns, 0, nil)
	file := render(ns)
	c26Judge(c, ns, file, binary)
}

// c26Huge dumps files of several GiB, whose large boxes are not read.
func c26Huge(c *Case) {
	f := newFileGen(c)
	f.leaf, f.huge, f.noEOF = true, true, true
	f.budget = 12
	ns := f.file()
	zeroItemFlags(ns)
	for i := range ns {
		if ns[i].typ == bt("mdat") && ns[i].spec != nil && len(ns[i].pay) < 100 {
			ns[i].zeros = 1<<31 + c.U64()%(1<<33)
		}
	}
	layout(ns, 0, nil)
	file := render(ns)
	c.ClassIf(file.size > math.MaxUint32, "beyond 4 GiB")
	if file.size > 1<<42 {
		return
	}
	c26Judge(c, ns, file, false)
}

func c26Judge(c *Case, ns []*node, file *sparse, binary bool) {
	all := allNodes(ns)
	o, args := drawDumpOpts(c, all)
	for _, n := range all {
		if n.zeros > 0 {
			// not shown in full
			delete(o.full, typeText(n.typ))
			for i := range args {
				if strings.HasPrefix(args[i], "-full") || args[i] == "-mdat" {
					args = nil
					*o = dumpOpts{full: map[string]bool{"": true}}
					break
				}
			}
		}
	}
	c.Note("tree", func() string { return nodesString(ns) })
	if file.size < 1<<16 {
		c.Note("file", func() string { return fmt.Sprintf("hex:%x", file.bytes()) })
	}
	name := writeSparse("in.mp4", file)
	lines := dumpLines(ns, o, file, 180, true)
	want := strings.Join(lines, "\n")
	want2 := strings.Join(dumpLines(ns, o, file, 180, false), "\n")
	if len(lines) > 0 {
		want += "\n"
		want2 += "\n"
	}
	r := runCmd(c, binary, "dump", append(args, name)...)
	if r.status != 0 {
		c.Failf("dump: status %d: %s", r.status, tail(r.out))
	}
	if string(r.out) != want && string(r.out) != want2 {
		c.Failf("dump differs%s", firstDiff(r.out, []byte(want)))
	}
	for _, n := range all {
		c.ClassIf(n.badVer, "unsupported version")
		c.ClassIf(n.spec == nil, "unsupported type")
	}
	for _, l := range lines {
		c.ClassIf(strings.Contains(l, " ... (use"), "ellipsis")
		c.ClassIf(strings.Contains(l, "Data=[...]"), "data hidden")
	}
	c.More(len(all))
	if len(all) > 1 {
		c.NonTrivial(want, fmt.Sprint(args))
	}
}

// ---- edit ----

func dropNodes(ns []*node, drop map[string]bool, count *int) []*node {
	var out []*node
	for _, n := range ns {
		if drop[typeText(n.typ)] {
			*count++
			continue
		}
		m := *n
		m.kids = dropNodes(n.kids, drop, count)
		out = append(out, &m)
	}
	return out
}

// c27Run edits a file. The large box of a huge one is dropped.
func c27Run(c *Case, binary, huge bool) {
	f := newFileGen(c)
	f.canon, f.noBad, f.noTail = true, true, true
	f.ctxy = c.Bool()
	var ns []*node
	if huge {
		f.leaf = true
		ns, _, _ = vastFile(c, f)
	} else {
		ns = f.file()
	}
	// fragment decode times, somewhere
	for _, n := range allNodes(ns) {
		if n.readable() && (n.typ == bt("traf") || n.typ == bt("moof") || len(n.kids) > 0 && c.Chance(4)) && !n.spec.openIn(n.ctx) && !noKids[n.typ] && !n.toEOF && n.typ != bt("keys") && c.Bool() {
			n.kids = append([]*node{f.typed(bt("tfdt"), inside(n.typ, n.ctx))}, n.kids...)
		}
	}
	if c.Chance(4) && !huge {
		for _, n := range allNodes(ns) {
			if (n.spec == nil || n.typ == bt("mdat")) && len(n.kids) == 0 && c.Bool() {
				n.zeros = uint64(c.Pick(300000))
			}
		}
	}
	layout(ns, 0, nil)
	for _, n := range allNodes(ns) {
		if !n.reencodable() && n.readable() && n.zeros == 0 {
			return
		}
	}
	file := render(ns)
	c.Note("tree", func() string { return nodesString(ns) })
	if file.size < 1<<16 {
		c.Note("file", func() string { return fmt.Sprintf("hex:%x", file.bytes()) })
	}
	all := allNodes(ns)
	out := cloneTree(ns)
	var args []string
	dropped, set := 0, 0
	if huge || c.Chance(3) {
		var l []string
		if huge {
			l = append(l, "mdat")
		}
		for i := 1 + c.Small(3); i > 0; i-- {
			t := anyType(c)
			if len(all) > 0 && !c.Chance(5) {
				t = all[c.Pick(len(all))].typ
			}
			if x := typeText(t); strings.IndexByte(x, 0) < 0 {
				l = append(l, x)
			}
		}
		v := strings.Join(l, ",")
		drop := map[string]bool{}
		for _, x := range strings.Split(v, ",") {
			drop[x] = true
		}
		out = dropNodes(ns, drop, &dropped)
		args = append(args, "-drop", v)
	}
	if c.Bool() {
		bits := 64
		for _, n := range all {
			if n.typ == bt("tfdt") && n.readable() && n.val.F[0].F[0].U == 0 {
				bits = 32
			}
		}
		v := c.UBits(bits)
		if v == math.MaxUint64 {
			v--
		}
		for _, n := range allNodes(out) {
			if n.typ == bt("tfdt") && n.readable() {
				n.val = cloneVal(n.val)
				i := n.spec.Def.idx["BaseMediaDecodeTimeV0"]
				if n.val.F[0].F[0].U != 0 {
					i = n.spec.Def.idx["BaseMediaDecodeTimeV1"]
				}
				n.val.F[i].U = v
				n.pay = mustEncode(n.spec, n.val, n.ctx)
				set++
			}
		}
		base := 10
		txt := strconv.FormatUint(v, base)
		if c.Chance(4) {
			txt = fmt.Sprintf("0x%x", v)
		}
		args = append(args, "-base_media_decode_time", txt)
	}
	layout(out, 0, nil)
	want := render(out)
	name := writeSparse("in.mp4", file)
	os.Remove("out.mp4")
	r := runCmd(c, binary, "edit", append(args, name, "out.mp4")...)
	if r.status != 0 {
		c.Failf("edit: status %d: %s", r.status, tail(r.out))
	}
	got, err := os.ReadFile("out.mp4")
	if err != nil {
		c.Failf("edit: %v", err)
	}
	if !bytes.Equal(got, want.bytes()) {
		c.Failf("edit %q: %d bytes, want %d%s", args, len(got), want.size, firstDiff(got, want.bytes()))
	}
	if huge {
	} else if b, _ := os.ReadFile(name); !bytes.Equal(b, file.bytes()) {
		c.Failf("edit changed its input")
	}
	c.ClassIf(dropped > 0, "dropped")
	c.ClassIf(set > 0, "decode time set")
	c.ClassIf(dropped+set == 0, "copied")
	if dropped+set > 0 || nested(ns) {
		c.NonTrivial(got, fmt.Sprint(args))
	}
}

// ---- psshdump ----

func c30Gen(c *Case) ([]*node, *sparse) {
	f := newFileGen(c)
	f.leaf, f.noTail = true, true
	if c.Chance(4) {
		f.g.max = 400
	}
	var ns []*node
	var ctx mp4.Context
	if c.Bool() {
		n := f.typed(bt("ftyp"), ctx)
		ns = append(ns, n)
		ctx = after(n, ctx, true)
	}
	some := func(ctx mp4.Context, depth int) (out []*node) {
		if f.budget < 4 {
			f.budget = 4
		}
		for _, x := range f.boxes(ctx, depth, depth == 0, c.Small(3)) {
			out = append(out, x)
		}
		return
	}
	keep := f.noBad
	most := 6
	if c.big > 0 {
		most = 60
	}
	for i := 1 + c.Small(most-1); i > 0; i-- {
		for _, x := range some(ctx, 0) {
			ns = append(ns, x)
			ctx = after(x, ctx, true)
		}
		f.noBad = true
		n := f.typed(bt([]string{"moov", "moof", "moov", "moof", "trak", "udta"}[c.Pick(6)]), ctx)
		f.noBad = keep
		in := inside(n.typ, ctx)
		for k := c.Small(most); k > 0; k-- {
			var xs []*node
			if c.Chance(3) {
				xs = some(in, 1)
			} else {
				f.noBad = true
				x := f.typed(bt("pssh"), in)
				if c.Chance(6) {
					// bytes behind the fields
					x.pay = append(append([]byte{}, x.pay...), c.Bytes(c.Int(1, 9))...)
				}
				xs = []*node{x}
				f.noBad = keep
			}
			for _, x := range xs {
				n.kids = append(n.kids, x)
				in = after(x, in, false)
			}
		}
		ns = append(ns, n)
	}
	if c.Chance(6) {
		n := ns[len(ns)-1]
		n.toEOF, n.hdr = true, 8
		if len(n.kids) > 0 && len(n.trail) == 0 && c.Bool() {
			n = n.kids[len(n.kids)-1]
			n.toEOF, n.hdr = true, 8
		}
	}
	layout(ns, 0, nil)
	for _, n := range allNodes(ns) {
		if n.typ == bt("pssh") && n.badVer {
			n.badVer = false
			n.pay = mustEncode(n.spec, n.val, n.ctx)
		}
	}
	layout(ns, 0, nil)
	return ns, render(ns)
}

func c30Run(c *Case, binary, huge bool) {
	ns, file := c30Gen(c)
	if huge {
		ns = insertVast(c, ns, len(ns))
		file = render(ns)
	}
	c.Note("tree", func() string { return nodesString(ns) })
	if file.size < 1<<16 {
		c.Note("file", func() string { return fmt.Sprintf("hex:%x", file.bytes()) })
	}
	name := writeSparse("in.mp4", file)
	var want strings.Builder
	i := 0
	for _, p := range ns {
		if p.typ != bt("moov") && p.typ != bt("moof") {
			continue
		}
		for _, n := range p.kids {
			if n.typ != bt("pssh") {
				continue
			}
			raw := file.slice(n.off, n.end())
			pay := raw[n.hdr:]
			at := 20
			if pay[0] != 0 {
				at += 4 + 16*int(be32(pay[20:]))
			}
			id := fmt.Sprintf("%x", pay[4:20])
			fmt.Fprintf(&want, "%d:\n  offset: %d\n  size: %d\n  version: %d\n  flags: 0x%x\n  systemId: %s-%s-%s-%s-%s\n  dataSize: %d\n  base64: %q\n\n",
				i, n.off, n.size, pay[0], pay[1:4], id[:8], id[8:12], id[12:16], id[16:20], id[20:], int32(be32(pay[at:])), base64.StdEncoding.EncodeToString(raw))
			i++
			c.Class(fmt.Sprintf("version %d in %s", pay[0], p.typ.String()))
		}
	}
	r := runCmd(c, binary, "psshdump", name)
	if r.status != 0 {
		c.Failf("psshdump: status %d: %s", r.status, tail(r.out))
	}
	if string(r.out) != want.String() {
		c.Failf("psshdump differs%s", firstDiff(r.out, []byte(want.String())))
	}
	c.Class(fmt.Sprintf("boxes %d", min(i, 5)))
	if i > 0 {
		c.NonTrivial(r.out)
	}
}

func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// c30Errors: a missing file, or a pssh box larger than its parent.
func c30Errors(c *Case, binary bool) {
	name := "missing.mp4"
	if c.Chance(3) {
		c.Class("missing file")
		c.NonTrivial("missing", c.U64())
	} else {
		ns, file := c30Gen(c)
		var cand []*node
		for _, p := range ns {
			if p.typ == bt("moov") || p.typ == bt("moof") {
				cand = append(cand, p.kids...)
			}
		}
		if len(cand) == 0 {
			return
		}
		x := cand[c.Pick(len(cand))]
		b := file.bytes()
		size := x.parent.end() - x.off + 1 + uint64(c.Pick(100))
		copy(b[x.off:], sizeHeader(x.typ, size, x.hdr == 16))
		c.Note("box", x)
		c.Note("file", b)
		c.NonTrivial(b)
		name = scratchFile("bad.mp4", b)
	}
	if r := runCmd(c, binary, "psshdump", name); r.status != 1 {
		c.Failf("psshdump: status %d: %s", r.status, tail(r.out))
	}
}
