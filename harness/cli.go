package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"github.com/abema/go-mp4/cmd/mp4tool/internal/divide"
	"github.com/abema/go-mp4/cmd/mp4tool/internal/dump"
	"github.com/abema/go-mp4/cmd/mp4tool/internal/edit"
	"github.com/abema/go-mp4/cmd/mp4tool/internal/extract"
	"github.com/abema/go-mp4/cmd/mp4tool/internal/probe"
	"github.com/abema/go-mp4/cmd/mp4tool/internal/psshdump"
)

// The commands are run in this process, with os.Stdout replaced by a file in
// the worker's scratch directory.

var tools = map[string]func([]string) int{
	"dump": dump.Main, "psshdump": psshdump.Main, "probe": probe.Main, "extract": extract.Main,
	"edit": edit.Main, "divide": divide.Main,
}

type toolRun struct {
	status int
	out    []byte
	crash  string // panic text and stack
}

var toolOut *os.File

func runTool(cmd string, args ...string) (t toolRun) {
	if toolOut == nil {
		f, err := os.CreateTemp(".", "out")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		toolOut = f
	}
	toolOut.Truncate(0)
	toolOut.Seek(0, 0)
	keep := os.Stdout
	os.Stdout = toolOut
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.crash = fmt.Sprintf("panic: %v\n%s", r, shortStack())
			}
		}()
		t.status = tools[cmd](args)
	}()
	os.Stdout = keep
	n, _ := toolOut.Seek(0, 2)
	if n > 64<<20 {
		n = 64 << 20
	}
	t.out = make([]byte, n)
	toolOut.ReadAt(t.out, 0)
	return t
}

// shortStack gives the frames of the code under test.
func shortStack() string {
	var out []string
	ls := strings.Split(string(debug.Stack()), "\n")
	for i := 0; i+1 < len(ls); i++ {
		if strings.Contains(ls[i+1], "/repo/") {
			out = append(out, strings.TrimSpace(ls[i])+" "+strings.TrimSpace(ls[i+1]))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// scratchFile writes a file for a command to read.
func scratchFile(name string, b []byte) string {
	if err := os.WriteFile(name, b, 0644); err != nil {
		panic(err)
	}
	return name
}

// writeSparse writes a sparse file to disk, leaving its virtual zeros as
// holes.
func writeSparse(name string, s *sparse) string {
	f, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(int64(s.size)); err != nil {
		panic(err)
	}
	for _, g := range s.segs {
		if _, err := f.WriteAt(g.data, int64(g.off)); err != nil {
			panic(err)
		}
	}
	return name
}
