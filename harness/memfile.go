package main

import (
	"errors"
	"io"
)

const pageBits = 12

// memFile is a sparse in-memory WriteSeeker / ReadSeeker.
type memFile struct {
	pages map[int64][]byte
	pos   int64
	size  int64
}

func (m *memFile) Write(p []byte) (int, error) {
	if m.pages == nil {
		m.pages = map[int64][]byte{}
	}
	n := len(p)
	for len(p) > 0 {
		k := m.pos >> pageBits
		o := int(m.pos & (1<<pageBits - 1))
		pg := m.pages[k]
		if pg == nil {
			pg = make([]byte, 1<<pageBits)
			m.pages[k] = pg
		}
		x := copy(pg[o:], p)
		p = p[x:]
		m.pos += int64(x)
	}
	m.size = max(m.size, m.pos)
	return n, nil
}

func (m *memFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += m.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	m.pos = off
	return off, nil
}

func (m *memFile) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if m.pos >= m.size {
		return 0, io.EOF
	}
	p = p[:min(int64(len(p)), m.size-m.pos)]
	m.readAt(p, m.pos)
	m.pos += int64(len(p))
	return len(p), nil
}

func (m *memFile) readAt(p []byte, off int64) {
	for len(p) > 0 {
		k := off >> pageBits
		o := int(off & (1<<pageBits - 1))
		n := min(len(p), 1<<pageBits-o)
		if pg := m.pages[k]; pg != nil {
			copy(p[:n], pg[o:])
		} else {
			clear(p[:n])
		}
		p = p[n:]
		off += int64(n)
	}
}

// slice gives the bytes [a,b).
func (m *memFile) slice(a, b int64) []byte {
	p := make([]byte, b-a)
	m.readAt(p, a)
	return p
}

func (m *memFile) bytes() []byte { return m.slice(0, m.size) }
