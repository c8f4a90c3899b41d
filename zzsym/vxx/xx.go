// Package xxhash stands in for github.com/cespare/xxhash/v2: the real one, or an arbitrary
// function when zzsym.HashFree is set.
package xxhash

import (
	"github.com/apache/datasketches-go/internal/zzsym"
	real "github.com/cespare/xxhash/v2"
)

type Digest struct {
	d    *real.Digest
	seed uint64
	free bool
	buf  []byte
}

func New() *Digest { return NewWithSeed(0) }

func NewWithSeed(seed uint64) *Digest {
	if zzsym.HashFree {
		return &Digest{seed: seed, free: true}
	}
	return &Digest{d: real.NewWithSeed(seed), seed: seed}
}

func (d *Digest) Write(b []byte) (int, error) {
	if d.free {
		d.buf = append(d.buf, b...)
		return len(b), nil
	}
	return d.d.Write(b)
}

func (d *Digest) WriteString(s string) (int, error) { return d.Write([]byte(s)) }

func (d *Digest) Sum64() uint64 {
	if d.free {
		h, _ := zzsym.AbsHash(2, d.buf, d.seed)
		return h
	}
	return d.d.Sum64()
}

func (d *Digest) Reset() {
	d.buf = nil
	if !d.free {
		d.d.Reset()
	}
}

func (d *Digest) ResetWithSeed(seed uint64) {
	d.seed = seed
	d.buf = nil
	if !d.free {
		d.d.ResetWithSeed(seed)
	}
}

func Sum64(b []byte) uint64 {
	d := New()
	d.Write(b)
	return d.Sum64()
}

func Sum64String(s string) uint64 { return Sum64([]byte(s)) }
