package main

import (
	"bytes"
	"fmt"

	mp4 "github.com/abema/go-mp4"
)

// User-defined structures. The structures come from gentypes (user_gen.go),
// which also writes the model of each.

var (
	userSpecs  []*Spec // whole bytes
	userMisfit []*Spec // not whole bytes
	userTables []*Spec
	userVarint []*Spec
	userVers   []*Spec // with fields that depend on the version
	userSource = map[string]string{}
)

func rootU(e *Env, name string) uint64 {
	fr := e.stack[0]
	return fr.v.F[fr.d.idx[name]].U
}

func (f *Fld) bitsf(b func(e *Env) int) *Fld { f.BitsF = b; return f }
func (f *Fld) goBits(n int) *Fld             { f.Go = n; return f }

// times: the number of entries is a multiple of n.
func (f *Fld) times(n int) *Fld {
	f.Gen = func(g *Gen, e *Env) *Val {
		h := *f
		h.Gen = nil
		cnt := int64(g.count(e)) / int64(n) * int64(n)
		h.Len = func(*Env) int64 { return cnt }
		return g.plain(&h, e)
	}
	return f
}

// fixed: the number of entries (bytes of text) is given.
func (f *Fld) fixed(n func(e *Env) int64) *Fld {
	f.Gen = func(g *Gen, e *Env) *Val {
		if f.K == KCStr {
			return &Val{P: true, S: string(noNul(g.c.Bytes(int(n(e)))))}
		}
		h := *f
		h.Gen = nil
		h.Len = n
		return g.plain(&h, e)
	}
	return f
}

func userBox(name, code string, newF func() mp4.IBox, fs ...*Fld) *Spec {
	s := &Spec{Name: name, Types: tt(code), Def: def(name, fs...), New: newF, User: true}
	return userAdd(s)
}

func userFull(name, code string, newF func() mp4.IBox, vers []int, fs ...*Fld) *Spec {
	fb := ext("FullBox", dFull)
	s := &Spec{Name: name, Types: tt(code), Versions: vers, Full: true, New: newF, User: true}
	fb.Gen = func(g *Gen, e *Env) *Val {
		v := g.fullBox(s)
		if v.F[0].U == 255 && s.Versions == nil && g.vers < 0 {
			v.F[0].U = uint64(g.c.Pick(4)) // 255 is tried in the version255 search
		}
		return v
	}
	s.Def = def(name, append([]*Fld{fb}, fs...)...)
	return userAdd(s)
}

func userAdd(s *Spec) *Spec {
	specByType[s.Types[0]] = append(specByType[s.Types[0]], s)
	userSpecs = append(userSpecs, s)
	return s
}

// userSort files the structures by what they have; called before a run,
// because gentypes sets Misfit after the fields.
func userSort() {
	if userTables != nil {
		return
	}
	var ok []*Spec
	for _, s := range userSpecs {
		if s.Misfit {
			userMisfit = append(userMisfit, s)
			continue
		}
		ok = append(ok, s)
		tab, vi, ver := false, false, false
		var walk func(f *Fld, top bool)
		walk = func(f *Fld, top bool) {
			tab = tab || (f.K == KSlice || f.K == KBytes) && f.Len != nil
			vi = vi || f.K == KVarint
			ver = ver || f.Ver >= 0 || f.NVer >= 0
			if f.Elem != nil {
				walk(f.Elem, false)
			}
			if f.Def != nil {
				for _, x := range f.Def.Fields {
					walk(x, false)
				}
			}
		}
		for _, f := range s.Def.Fields {
			walk(f, true)
		}
		if tab {
			userTables = append(userTables, s)
		}
		if vi {
			userVarint = append(userVarint, s)
		}
		if ver && s.Full && s.Versions == nil {
			userVers = append(userVers, s)
		}
	}
	userSpecs = ok
	if len(userTables) == 0 || len(userVarint) == 0 || len(userMisfit) == 0 || len(userVers) == 0 {
		panic("no generated structures: run through check.sh")
	}
}

// anyUser draws a generated structure, if there are any in this build.
func anyUser(c *Case) *Spec {
	if len(userSource) == 0 {
		return nil
	}
	return user(c, &userSpecs)
}

// userRegister registers a generated structure.
func userRegister(name string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			userRefused[name] = fmt.Sprint(r)
		}
	}()
	f()
}

var userRefused = map[string]string{}

func user(c *Case, pool *[]*Spec) *Spec {
	userSort()
	s := (*pool)[c.Pick(len(*pool))]
	c.Note("go type", func() string { return userSource[s.Name] })
	if r, bad := userRefused[s.Name]; bad {
		c.Failf("registering the structure panicked: %s", r)
	}
	return s
}

func init() {
	register(&Prop{
		ID: "C20", Level: "exploration",
		Rule: "the encoded payload carries at least one non-zero byte (layout), the payload or text is not empty (other searches); structures are generated afresh for the seed, 400 in the quick and 3000 in the thorough tier",
		Assumptions: []string{
			"text fields without NUL bytes; values fit the stated bit size; pointers of present fields are set",
			"the struct generator and the model tables it writes interpret the field tags as documented",
			"hooks are functions of earlier fields, the version, the flags or the context",
		},
		Subs: []Sub{
			{Name: "decode", N: 60000, F: func(c *Case) { g := newGen(c); g.max = 12; c01One(c, user(c, &userSpecs), g) }},
			{Name: "encode", N: 60000, F: func(c *Case) { g := newGen(c); g.max = 12; g.junk = c.Bool(); c02One(c, user(c, &userSpecs), g) }},
			{Name: "roundtrip", N: 20000, F: func(c *Case) { g := newGen(c); g.max = 12; c03Values(c, user(c, &userSpecs), g) }},
			{Name: "text", N: 50000, F: func(c *Case) { g := newGen(c); g.max = 12; c17One(c, user(c, &userSpecs), g) }},
			{Name: "mutated", N: 50000, F: func(c *Case) { c05MutatedOf(c, user(c, &userSpecs)) }},
			{Name: "cuts", N: 3000, F: func(c *Case) { c05CutsOf(c, user(c, &userSpecs)) }},
			{Name: "short", N: 10000, F: func(c *Case) { c02ShortOf(c, user(c, &userTables)) }},
			{Name: "long", N: 10000, F: func(c *Case) { c02LongOf(c, user(c, &userTables)) }},
			{Name: "misfit", N: 15000, F: c20Misfit},
			{Name: "varint", N: 3000, F: c20Varint},
			{Name: "version255", N: 3000, F: c20Version255},
		},
	})
}

// c20Misfit: a box whose bits do not add up to whole bytes is refused.
func c20Misfit(c *Case) {
	s := user(c, &userMisfit)
	g := newGen(c)
	g.max = 8
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	w := &bitW{}
	if err := encStruct(w, s.env(v, ctx), s.Def, v); err != nil || w.n == 0 {
		panic(fmt.Sprintf("generator: %s: %v, %d bits", s.Name, err, w.n))
	}
	b := s.Build(v, t)
	noteBox(c, s, t, ctx, nil)
	c.Note("box", b)
	c.Class(fmt.Sprintf("%d bits over", w.n))
	c.NonTrivial(t[:], w.b)
	var o bytes.Buffer
	if n, err := mp4.Marshal(&o, b, ctx); err == nil {
		c.Failf("encoding %s, %d bits, succeeded: n=%d, %x", s.Name, w.len(), n, o.Bytes())
	}
	if n, err := mp4.Unmarshal(bytes.NewReader(w.b), uint64(len(w.b)), instance(s, t), ctx); err == nil {
		c.Failf("decoding %s, whose fields take %d bits of %d bytes, succeeded: n=%d", s.Name, w.len(), len(w.b), n)
	}
	more := append(append([]byte{}, w.b...), c.Bytes(c.Int(1, 9))...)
	if n, err := mp4.Unmarshal(bytes.NewReader(more), uint64(len(more)), instance(s, t), ctx); err == nil {
		c.Failf("decoding %s, whose fields take %d bits, from %d bytes succeeded: n=%d", s.Name, w.len(), len(more), n)
	}
	// too short a payload is refused as well
	if k := len(w.b) - 1; k > 0 {
		k = c.Pick(k)
		if n, err := mp4.Unmarshal(bytes.NewReader(w.b), uint64(k), instance(s, t), ctx); err == nil {
			if _, _, rerr := s.Decode(w.b[:k], ctx); rerr != nil && rerr != errDontCare {
				c.Failf("decoding %s from %d bytes of %d succeeded: n=%d", s.Name, k, len(w.b), n)
			}
		}
	}
	c.More(2)
}

// c20Varint: values that do not fit the four bytes of a variable-length
// integer are refused, not cut.
func c20Varint(c *Case) {
	s := user(c, &userVarint)
	g := newGen(c)
	g.max = 6
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	b := s.Build(v, t)
	ls := s.leaves(v, ctx, b, func(f *Fld) bool { return f.K == KVarint })
	if len(ls) == 0 {
		c.Class("absent")
		return
	}
	l := ls[c.Pick(len(ls))]
	x := uint64(1)<<28 + c.UBits(l.f.Go-1)
	if l.f.Go == 32 {
		x = x&(1<<32-1) | 1<<28
	}
	l.rv.SetUint(x)
	noteBox(c, s, t, ctx, nil)
	c.Note("box", b)
	c.Note("value", fmt.Sprintf("%s = %d", l.path, x))
	c.Class("too large")
	c.NonTrivial(t[:], l.path, x)
	var w bytes.Buffer
	if n, err := mp4.Marshal(&w, b, ctx); err == nil {
		c.Failf("encoding %s with %s = %d as a variable-length integer of 28 bits succeeded: n=%d %x", s.Name, l.path, x, n, w.Bytes())
	}
}

// c20Version255: version 255 is a version like any other. (Known finding: the
// library takes it for "any version", so that every version-dependent field
// is present.)
func c20Version255(c *Case) {
	s := user(c, &userVers)
	g := newGen(c)
	g.max = 6
	g.vers = 255
	ctx, t := g.context(s)
	defer func() { anyVersionAt255 = false }()
	anyVersionAt255 = true
	v := g.value(s, ctx)
	b := s.BuildAll(v, t)
	dev := mustEncode(s, v, ctx)
	anyVersionAt255 = false
	conf := mustEncode(s, v, ctx)
	noteBox(c, s, t, ctx, nil)
	c.Note("box", b)
	c.Note("payload", conf)
	c.Note("payload as of any version", dev)
	c.NonTrivial(t[:], conf)
	if bytes.Equal(conf, dev) {
		c.Class("no difference")
	}
	var w bytes.Buffer
	if _, err := mp4.Marshal(&w, b, ctx); err != nil {
		c.Failf("encoding %s at version 255: %v", s.Name, err)
	}
	p := conf
	if !bytes.Equal(w.Bytes(), conf) {
		if !bytes.Equal(w.Bytes(), dev) {
			c.Failf("encoding %s at version 255:\n%x\nwant\n%x", s.Name, w.Bytes(), conf)
		}
		// exactly the known deviation
		anyVersionAt255 = true
		p = dev
	}
	b2, n, err := mp4.UnmarshalAny(bytes.NewReader(p), t, uint64(len(p)), ctx)
	if err != nil || int(n) != len(p) {
		c.Failf("decoding %s at version 255: n=%d err=%v", s.Name, n, err)
	}
	w2 := bytes.Buffer{}
	if _, err := mp4.Marshal(&w2, b2, ctx); err != nil || !bytes.Equal(w2.Bytes(), p) {
		c.Failf("%s at version 255 changed over decoding and encoding: err=%v\n%x\nwant\n%x", s.Name, err, w2.Bytes(), p)
	}
	if anyVersionAt255 {
		c.Class("known finding version-255")
		theWorker.known["version-255"] = "a user-defined box with version 255 has every version-dependent field (ver, nver tags), because 255 stands for \"any version\" inside the library"
	}
}
