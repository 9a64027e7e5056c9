package main

import (
	crand "crypto/rand"
	"io"
)

// The builder draws identifiers from crypto/rand. Replacing the reader makes
// the runs reproducible, lets two builders get the same identifiers, and
// allows injecting unlucky draws.
type detReader struct {
	r      *RNG
	inject [][]byte // served first, one per Read
	reads  int
	fail   int // > 0: the read with this number fails
	err    error
}

func (d *detReader) Read(p []byte) (int, error) {
	d.reads++
	if d.fail != 0 && d.reads == d.fail {
		return 0, d.err
	}
	if len(d.inject) > 0 {
		n := copy(p, d.inject[0])
		d.inject = d.inject[1:]
		for ; n < len(p); n++ {
			p[n] = d.r.Byte()
		}
		return len(p), nil
	}
	for i := range p {
		p[i] = d.r.Byte()
	}
	return len(p), nil
}

var realRand = crand.Reader

func seedCryptoRand(seed uint64) *detReader {
	d := &detReader{r: &RNG{seed}}
	if fixedRand {
		return d
	}
	crand.Reader = d
	return d
}

func restoreCryptoRand() { crand.Reader = realRand }

// plainRand hands on the system's random bytes through an ordinary copy, which
// the race detector sees (the kernel's own write into the buffer it doesn't),
// and without synchronizing its callers.
type plainRand struct{}

func (plainRand) Read(p []byte) (int, error) {
	b := make([]byte, len(p))
	n, err := realRand.Read(b)
	copy(p, b[:n])
	return n, err
}

var _, _ io.Reader = (*detReader)(nil), plainRand{}
