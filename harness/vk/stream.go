package vk

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"math/big"
	"sync"
)

// Stream is the controlled source of randomness: draw i (one Read call) of a
// stream with a given seed is a fixed function of (seed, i, length), unless a
// deviation says otherwise.
type Stream struct {
	Seed   uint64
	N      int // draws so far
	Lens   []int
	Dev    map[int]Deviation
	FailAt int // -1: never
	Limit  int
	OnRead func()
	mu     sync.Mutex
	Chunk  int // > 0: at most so many bytes per Read
}

// Deviation replaces one draw.
type Deviation struct {
	Kind string   // "value", "flip", "fail", "failpart"
	Val  *big.Int // for "value"
}

// ErrEntropy is what a failing draw returns.
var ErrEntropy = errors.New("injected entropy failure")

func NewStream(seed uint64) *Stream {
	return &Stream{Seed: seed, FailAt: -1, Limit: 200000, Dev: map[int]Deviation{}}
}

func (s *Stream) Read(p []byte) (int, error) {
	if s.OnRead != nil {
		s.OnRead()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	i := s.N
	s.N++
	if s.N > s.Limit {
		panic(Horizon{"random draws"})
	}
	s.Lens = append(s.Lens, len(p))
	if s.FailAt >= 0 && i >= s.FailAt {
		return 0, ErrEntropy
	}
	if s.Chunk > 0 && len(p) > s.Chunk {
		p = p[:s.Chunk]
	}
	fill(p, s.Seed, i)
	if d, ok := s.Dev[i]; ok {
		switch d.Kind {
		case "value":
			v := new(big.Int).Set(d.Val)
			if (v.BitLen()+7)/8 <= len(p) {
				v.FillBytes(p)
			}
		case "flip":
			p[len(p)-1] ^= 1
		case "fail":
			for i := range p {
				p[i] = 0
			}
			return 0, ErrEntropy
		case "failpart":
			return len(p) / 2, ErrEntropy
		}
	}
	return len(p), nil
}

// FillBytes is the deterministic pseudo-random filler.
func FillBytes(p []byte, seed uint64, i int) { fill(p, seed, i) }

func fill(p []byte, seed uint64, i int) {
	var in [24]byte
	binary.BigEndian.PutUint64(in[:8], seed)
	binary.BigEndian.PutUint64(in[8:16], uint64(i))
	for off, blk := 0, 0; off < len(p); blk++ {
		binary.BigEndian.PutUint64(in[16:], uint64(blk))
		h := sha256.Sum256(in[:])
		off += copy(p[off:], h[:])
	}
}

// Use installs a stream as the process-wide randomness.
func Use(r io.Reader) { rand.Reader = r }

// Fresh installs a fresh stream and returns it.
func Fresh(seed uint64) *Stream {
	s := NewStream(seed)
	Use(s)
	return s
}

// With installs a fresh stream with deviations (index, value pairs).
func With(seed uint64, dev map[int]Deviation) *Stream {
	s := NewStream(seed)
	for k, v := range dev {
		s.Dev[k] = v
	}
	Use(s)
	return s
}
