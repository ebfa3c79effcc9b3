// Package hook puts a proxy in front of crypto/rand.Reader before any package
// of the program under test is initialised (its import path sorts before every
// other one, so it is initialised right after crypto/rand).
package hook

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	mrand "math/rand/v2"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Script is a scripted random source: Buf, then a deterministic stream.
type Script struct {
	Buf     []byte
	Seed    uint64
	FailAt  int // <0: never
	Partial bool
	Err     error
	Once    bool
	Chunk   int
	Zero    int
	Slow    time.Duration
	SlowAt  int

	Read, After, Calls int
	errs               int
	failed             bool
	pos                int
	tail               []byte
	ctr                uint64
}

// MaxCalls bounds the reads of one operation (a logical step bound: correct
// code needs a handful).
const MaxCalls = 200000

// MaxErrs bounds the failed reads of one operation.
const MaxErrs = 4000

// TooMany is the panic value when MaxCalls is exceeded.
const TooMany = "random source read too often: generation does not terminate"

// ErrInjected is the injected failure.
var ErrInjected = errors.New("injected random source failure")

type proxy struct {
	orig   io.Reader
	cur    atomic.Pointer[Script]
	jitter atomic.Bool
	record atomic.Bool
	broken atomic.Bool
	mu     sync.Mutex
	log    map[int][]byte
}

// Concurrent makes the real source slow and uneven: short reads, yields and
// small sleeps inside a read, so that other goroutines run in between. With
// record, the bytes each goroutine got are kept (this synchronises the
// goroutines, so it is not used under the race detector).
//
// A broken source fails in one read out of two.
func Concurrent(jitter, record, broken bool) {
	P.broken.Store(broken)
	P.log = map[int][]byte{}
	P.jitter.Store(jitter)
	P.record.Store(record)
}

// Taken returns and forgets what the calling goroutine read.
func Taken() []byte {
	if !P.record.Load() {
		return nil
	}
	g := goid()
	P.mu.Lock()
	defer P.mu.Unlock()
	b := P.log[g]
	delete(P.log, g)
	return b
}

func goid() int {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	n, _ := strconv.Atoi(f[1])
	return n
}

func (p *proxy) uneven(b []byte) (int, error) {
	switch mrand.IntN(8) {
	case 0:
		time.Sleep(time.Duration(mrand.IntN(200)) * time.Microsecond)
	case 1, 2, 3:
		runtime.Gosched()
	}
	if n := len(b); n > 1 && mrand.IntN(2) == 0 {
		b = b[:1+mrand.IntN(n-1)]
	}
	n, err := p.orig.Read(b)
	if p.record.Load() {
		g := goid()
		p.mu.Lock()
		p.log[g] = append(p.log[g], b[:n]...)
		p.mu.Unlock()
	}
	if mrand.IntN(4) == 0 {
		runtime.Gosched()
	}
	return n, err
}

// P is the installed proxy.
var P *proxy

func init() {
	P = &proxy{orig: rand.Reader}
	rand.Reader = P
}

// Set installs a script (nil: the real source).
func Set(s *Script) { P.cur.Store(s) }

func (p *proxy) Read(b []byte) (int, error) {
	s := p.cur.Load()
	if s == nil {
		if p.broken.Load() && mrand.IntN(2) == 0 {
			return 0, ErrInjected
		}
		if p.jitter.Load() {
			return p.uneven(b)
		}
		return p.orig.Read(b)
	}
	return s.read(b)
}

func (s *Script) next() byte {
	if s.pos < len(s.Buf) {
		s.pos++
		return s.Buf[s.pos-1]
	}
	if len(s.tail) == 0 {
		var in [16]byte
		binary.BigEndian.PutUint64(in[:8], s.Seed)
		binary.BigEndian.PutUint64(in[8:], s.ctr)
		s.ctr++
		h := sha256.Sum256(in[:])
		s.tail = h[:]
	}
	c := s.tail[0]
	s.tail = s.tail[1:]
	return c
}

func (s *Script) read(b []byte) (int, error) {
	s.Calls++
	if s.Calls > MaxCalls {
		panic(TooMany)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if s.Slow > 0 && s.Calls == s.SlowAt+1 {
		time.Sleep(s.Slow)
	}
	if s.Zero > 0 && s.Calls%s.Zero == 0 {
		return 0, nil
	}
	n := len(b)
	if s.Chunk > 0 && n > s.Chunk {
		n = s.Chunk
	}
	var err error
	if s.FailAt >= 0 && !(s.Once && s.failed) {
		left := s.FailAt - s.Read
		if left <= 0 {
			if s.errs++; s.errs > MaxErrs {
				panic(TooMany)
			}
			s.failed = true
			s.After = 0
			return 0, s.Err
		}
		if n >= left {
			n = left
			if s.Partial {
				s.failed = true
				err = s.Err
			}
		}
	}
	for i := 0; i < n; i++ {
		b[i] = s.next()
	}
	s.Read += n
	if err != nil {
		s.After = 0
	} else {
		s.After += n
	}
	return n, err
}
