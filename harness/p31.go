package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

func init() {
	register(&Prop{
		ID: "C31", Level: "fault_enumeration",
		Rule:        "an output of the command is not empty and the injected limit cuts it, or an output cannot be created; each (command, limit) counts as one evaluation",
		Assumptions: []string{"without the fault the command succeeds", "output fails from some byte on, because of a limit on the size of files or a full device"},
		Subs: []Sub{
			{Name: "stdout", N: 6000, F: func(c *Case) {
				c31Run(c, []string{"extract", "dump", "psshdump", "probe", "extract", "dump"}[c.Pick(6)])
			}},
			{Name: "edit", N: 4000, F: func(c *Case) { c31Run(c, "edit") }},
			{Name: "divide", N: 1200, F: func(c *Case) { c31Run(c, "divide") }},
			{Name: "uncreatable", N: 1500, F: c31Uncreatable},
			{Name: "unreadable", N: 600, F: c31Unreadable},
			{Name: "device", N: 200, F: c31Device},
		},
	})
}

// withLimit runs f while files cannot grow beyond n bytes.
func withLimit(n int64, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	l := old
	l.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(fmt.Sprintf("generator: setrlimit: %v", err))
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
	}()
	f()
}

// c31Input draws an input of the command and its arguments.
func c31Input(c *Case, cmd string) (args []string) {
	name := "in.mp4"
	switch cmd {
	case "divide":
		m, _ := c28Build(c)
		m.notes()
		writeSparse(name, render(m.ns))
		return []string{name, "divided"}
	case "probe":
		m := newMovie(c)
		m.ascii, m.real = true, true
		m.nosample = c.Bool()
		m.maxSample = 12
		m.build(m.nosample)
		m.notes()
		writeSparse(name, render(m.ns))
		return []string{"-format", []string{"json", "yaml"}[c.Pick(2)], name}
	case "psshdump":
		ns, file := c30Gen(c)
		c.Note("tree", func() string { return nodesString(ns) })
		writeSparse(name, file)
		return []string{name}
	case "edit":
		ns, file := cliFile(c, func(f *fileGen) { f.canon, f.noBad, f.noTail = true, true, true }, true)
		_ = ns
		writeSparse(name, file)
		if c.Chance(4) {
			args = []string{"-drop", "free,udta"}
		}
		if c.Chance(4) {
			args = append(args, "-base_media_decode_time", "7")
		}
		return append(args, name, "out.mp4")
	}
	ns, file := cliFile(c, nil, true)
	writeSparse(name, file)
	if cmd == "dump" {
		if c.Chance(3) {
			args = append(args, "-a")
		}
		if c.Chance(4) {
			args = append(args, "-full", "mdat,free")
		}
		return append(args, name)
	}
	t := pickType(c, allNodes(ns))
	if bytes.IndexByte(t[:], 0) >= 0 {
		t = bt("mdat")
	}
	return []string{"--", string(t[:]), name}
}

// prepare gives the command an empty place for its output.
func c31Prepare() {
	if err := os.RemoveAll("divided"); err != nil {
		panic(err)
	}
	if err := os.Mkdir("divided", 0777); err != nil {
		panic(err)
	}
	os.Remove("out.mp4")
}

// c31Outputs gives everything that a run has written.
func c31Outputs(r toolRun, cmd string) map[string][]byte {
	out := map[string][]byte{}
	if cmd != "edit" && cmd != "divide" {
		// there the standard output has warnings only
		out["standard output"] = r.out
	}
	if b, err := os.ReadFile("out.mp4"); err == nil {
		out["out.mp4"] = b
	}
	filepath.WalkDir("divided", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := os.ReadFile(p)
			out[p] = b
		}
		return nil
	})
	return out
}

func c31Run(c *Case, cmd string) {
	args := c31Input(c, cmd)
	c31Prepare()
	ref := runCmd(c, false, cmd, args...)
	c.Class(cmd)
	if ref.status != 0 {
		c.Class(cmd + " refuses the input")
		return
	}
	want := c31Outputs(ref, cmd)
	var names []string
	largest := 0
	for k, b := range want {
		names = append(names, k)
		largest = max(largest, len(b))
	}
	sort.Strings(names)
	if largest == 0 || largest > 4<<20 {
		return
	}
	for round := 0; round < 4; round++ {
		var limit int
		switch c.Pick(5) {
		case 0:
			limit = c.Pick(largest)
		case 1, 2:
			// around the end of one of the outputs
			b := want[names[c.Pick(len(names))]]
			limit = max(0, len(b)-1-c.Small(40))
		case 3:
			b := want[names[c.Pick(len(names))]]
			limit = c.Pick(len(b) + 1)
		default:
			limit = largest + c.Pick(3)
		}
		c.Note("limit", limit)
		c31Prepare()
		var r toolRun
		withLimit(int64(limit), func() { r = runCmd(c, false, cmd, args...) })
		var cut []string
		for _, k := range names {
			if len(want[k]) > limit {
				cut = append(cut, k)
			}
		}
		c.More(1)
		if len(cut) > 0 {
			c.NonTrivial(cmd, fmt.Sprint(args), want[cut[0]], limit)
			c.Class(cmd + " cut")
			if r.status == 0 {
				c.Failf("%s reports success although %d bytes is the limit and these are longer: %v", cmd, limit, cut)
			}
			continue
		}
		c.Class(cmd + " not cut")
		if r.status != 0 {
			c.Failf("%s fails with a limit of %d bytes which no output exceeds: %s", cmd, limit, tail(r.out))
		}
		got := c31Outputs(r, cmd)
		for _, k := range names {
			if !bytes.Equal(got[k], want[k]) {
				c.Failf("%s: %s differs from one run to the other", cmd, k)
			}
		}
	}
}

// c31Uncreatable puts directories where files are to be created.
func c31Uncreatable(c *Case) {
	cmd := []string{"edit", "divide", "divide"}[c.Pick(3)]
	args := c31Input(c, cmd)
	c31Prepare()
	ref := runCmd(c, false, cmd, args...)
	if ref.status != 0 {
		return
	}
	var names []string
	for k, b := range c31Outputs(ref, cmd) {
		if len(b) > 0 || !strings.HasSuffix(k, "/0.mp4") {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return
	}
	k := names[c.Pick(len(names))]
	c31Prepare()
	c.Note("not creatable", k)
	c.NonTrivial(cmd, k, ref.status, len(names), fileDigest("in.mp4"))
	how := c.Pick(2)
	if how == 0 {
		// a directory of the name
		if err := os.MkdirAll(k, 0777); err != nil {
			panic(err)
		}
	} else {
		// the directory is missing, or a file
		switch d := filepath.Dir(k); d {
		case ".":
			args[len(args)-1] = "nowhere/out.mp4"
		case "divided":
			os.RemoveAll("divided")
			os.WriteFile("divided", []byte("x"), 0666)
		default:
			os.WriteFile(d, []byte("x"), 0666)
		}
	}
	r := runCmd(c, false, cmd, args...)
	if how == 0 {
		os.RemoveAll("out.mp4")
	}
	c.Class(cmd)
	if r.status == 0 {
		c.Failf("%s reports success although %s cannot be created", cmd, k)
	}
}

// c31Device sends the standard output of the program to a full device.
func c31Device(c *Case) {
	cmd := []string{"extract", "dump", "psshdump", "probe"}[c.Pick(4)]
	args := c31Input(c, cmd)
	r := runCmd(c, true, cmd, args...)
	if r.status != 0 || len(r.out) == 0 {
		return
	}
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		c.Class("no /dev/full")
		return
	}
	defer f.Close()
	x := exec.Command(os.Getenv("PBT_MP4TOOL"), append([]string{cmd}, args...)...)
	x.Stdout = f
	err = x.Run()
	c.NonTrivial(cmd, r.out)
	c.Class(cmd)
	if err == nil {
		c.Failf("%s reports success with its standard output on a full device", cmd)
	}
}

func fileDigest(name string) string {
	f, err := os.Open(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	h := sha256.New()
	io.Copy(h, io.LimitReader(f, 1<<20))
	return fmt.Sprintf("%x", h.Sum(nil))
}

// c31Unreadable gives the commands an input that is missing or a directory.
func c31Unreadable(c *Case) {
	cmd := []string{"extract", "dump", "psshdump", "probe", "edit", "divide"}[c.Pick(6)]
	args := c31Input(c, cmd)
	c31Prepare()
	bad := []string{"missing.mp4", "nowhere/in.mp4", "divided", "in.mp4/in.mp4"}[c.Pick(4)]
	for i, a := range args {
		if a == "in.mp4" {
			args[i] = bad
		}
	}
	r := runCmd(c, c.Chance(20), cmd, args...)
	c.NonTrivial(cmd, bad, fmt.Sprint(args))
	c.Class(cmd + " " + bad)
	if r.status == 0 {
		c.Failf("%s reports success although %s cannot be read", cmd, bad)
	}
}
