package main

import (
	"bytes"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The generators take a small part of their values from a dictionary: the
// constants that occur in the source of the tree under test, together with
// well-known values of the formats. Values on which the code branches are
// then reached however unlikely they are among random ones. The dictionary
// only proposes inputs; no oracle looks at it.
type dictionary struct {
	ints  []uint64 // values and their neighbours, sorted
	bytes [][]byte // byte strings of 1 to 32 bytes
	fours [][4]byte
}

var dict dictionary

func loadDict(repo string) {
	ints := map[uint64]bool{}
	strs := map[string]bool{}
	num := func(v constant.Value) {
		if v == nil || v.Kind() != constant.Int {
			return
		}
		u, ok := constant.Uint64Val(v)
		if !ok {
			i, ok := constant.Int64Val(v)
			if !ok {
				return
			}
			u = uint64(i)
		}
		ints[u-1], ints[u], ints[u+1] = true, true, true
	}
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) (r constant.Value) {
		defer func() {
			if recover() != nil {
				r = nil
			}
		}()
		switch e := e.(type) {
		case *ast.BasicLit:
			if e.Kind == token.INT || e.Kind == token.CHAR {
				v := constant.MakeFromLiteral(e.Value, e.Kind, 0)
				if v.Kind() == constant.Int {
					return v
				}
			}
		case *ast.ParenExpr:
			return eval(e.X)
		case *ast.UnaryExpr:
			if x := eval(e.X); x != nil && (e.Op == token.SUB || e.Op == token.ADD) {
				return constant.UnaryOp(e.Op, x, 0)
			}
		case *ast.CallExpr: // conversions such as uint32(1)
			if id, ok := e.Fun.(*ast.Ident); ok && len(e.Args) == 1 && strings.Contains(id.Name, "int") {
				return eval(e.Args[0])
			}
		case *ast.BinaryExpr:
			x, y := eval(e.X), eval(e.Y)
			if x == nil || y == nil {
				return nil
			}
			switch e.Op {
			case token.SHL, token.SHR:
				if s, ok := constant.Uint64Val(y); ok && s < 64 {
					return constant.Shift(x, e.Op, uint(s))
				}
			case token.QUO:
				return constant.BinaryOp(x, token.QUO_ASSIGN, y)
			case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR:
				return constant.BinaryOp(x, e.Op, y)
			}
		}
		return nil
	}
	filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			n := d.Name()
			if p != repo && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata" || n == "verif") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, src, 0)
		if f == nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				n.Tag = nil
			case *ast.BasicLit:
				num(eval(n))
				if n.Kind == token.STRING {
					if v := constant.MakeFromLiteral(n.Value, n.Kind, 0); v.Kind() == constant.String {
						if s := constant.StringVal(v); len(s) >= 1 && len(s) <= 32 {
							strs[s] = true
						}
					}
				}
			case *ast.BinaryExpr:
				num(eval(n))
			case *ast.UnaryExpr:
				num(eval(n))
			case *ast.CompositeLit:
				if len(n.Elts) == 0 || len(n.Elts) > 32 {
					return true
				}
				var b []byte
				for _, e := range n.Elts {
					v := eval(e)
					if v == nil {
						return true
					}
					u, ok := constant.Uint64Val(v)
					if !ok || u > 255 {
						return true
					}
					b = append(b, byte(u))
				}
				strs[string(b)] = true
			}
			return true
		})
		return nil
	})
	for _, s := range strings.Fields(wellKnown4) {
		strs[s] = true
	}
	for _, u := range wellKnownInts {
		ints[u] = true
	}
	for _, s := range wellKnownStrings {
		strs[s] = true
	}
	dict = dictionary{}
	for u := range ints {
		dict.ints = append(dict.ints, u)
	}
	sort.Slice(dict.ints, func(i, j int) bool { return dict.ints[i] < dict.ints[j] })
	for s := range strs {
		dict.bytes = append(dict.bytes, []byte(s))
	}
	sort.Slice(dict.bytes, func(i, j int) bool { return bytes.Compare(dict.bytes[i], dict.bytes[j]) < 0 })
	for _, b := range dict.bytes {
		if len(b) == 4 {
			dict.fours = append(dict.fours, [4]byte{b[0], b[1], b[2], b[3]})
		}
	}
}

const wellKnown4 = `isom iso2 iso3 iso4 iso5 iso6 iso7 iso8 iso9 mp41 mp42 avc1 avc3 hvc1 hev1 mp4a
dash msdh msix msnv cmfc cmf2 piff M4A  M4V  qt   3gp4 heic mif1 avif nclc nclx prof rICC seig sync tsas stsa
roll rap  soun vide hint meta text sbtl subt auxv subp mdir mdta ID32 cenc cbcs cens cbc1 alis url  urn
und  eng  jpn  free skip wide uuid data mean name ----`

var wellKnownInts = []uint64{
	44100 << 16, 48000 << 16, 22050 << 16, 90000, 48000, 44100, 600, 1000, 30000, 15360, 12800,
	0x55c4, 0x10000, 0x40000000, 0x01000000, 0x00010000, 0x7fffffff, 0x80000000,
	66, 77, 88, 100, 110, 118, 122, 128, 134, 135, 138, 139, 144, 244, 44, 83, 86,
	0x40, 0x66, 0x67, 0x68, 0x69, 0x6b, 0xa9, 0x00a9, 2082844800,
}

var wellKnownStrings = []string{
	"\xed\xef\x8b\xa9\x79\xd6\x4a\xce\xa3\xc8\x27\xdc\xd5\x1d\x21\xed",
	"\x9a\x04\xf0\x79\x98\x40\x42\x86\xab\x92\xe6\x5b\xe0\x88\x5f\x95",
	"\x10\x77\xef\xec\xc0\xb2\x4d\x02\xac\xe3\x3c\x1e\x52\xe2\xfb\x4b",
	"\x94\xce\x86\xfb\x07\xff\x4f\x43\xad\xb8\x93\xd2\xfa\x96\x8c\xa2",
	"\xa2\x39\x4f\x52\x5a\x9b\x4f\x14\xa2\x44\x6c\x42\x7c\x64\x8d\xf4",
	"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\x00\x00\x00\x01", "\x00\x00\x03", "\xa9nam", "\xa9too",
	"VideoHandler", "SoundHandler", "application/x-mp4",
}

// dictInt proposes a value from the dictionary of at most max.
func (c *Case) dictInt(min, max uint64) (uint64, bool) {
	lo := sort.Search(len(dict.ints), func(i int) bool { return dict.ints[i] >= min })
	hi := sort.Search(len(dict.ints), func(i int) bool { return dict.ints[i] > max })
	if lo >= hi {
		return 0, false
	}
	return dict.ints[lo+c.Pick(hi-lo)], true
}

// dictBytes overwrites a part of b with a byte string from the dictionary.
func (c *Case) dictBytes(b []byte) {
	if len(dict.bytes) == 0 || len(b) == 0 {
		return
	}
	s := dict.bytes[c.Pick(len(dict.bytes))]
	if len(b) == 4 && len(dict.fours) > 0 && c.Bool() {
		s = dict.fours[c.Pick(len(dict.fours))][:]
	}
	at := 0
	if len(s) < len(b) {
		at = []int{0, len(b) - len(s), c.Pick(len(b) - len(s) + 1)}[c.Pick(3)]
	}
	copy(b[at:], s)
}
