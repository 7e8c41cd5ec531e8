package mint

// Common part of the concrete drivers: they run the real code on concrete inputs against an oracle written here
// independently of the code. They replay failures of the deductive checks, and are bounded stand-ins otherwise.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

type vfRun struct {
	rng      *rand.Rand
	evals    int
	seen     map[string]bool
	viols    int
	samples  int
	thorough bool
	deadline time.Time
	t        *testing.T
}

func vfStart(t *testing.T, bound string) *vfRun {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	v := &vfRun{rng: rand.New(rand.NewSource(seed + 1)), seen: map[string]bool{}, t: t}
	v.thorough = os.Getenv("VERIF_TIER") == "thorough"
	v.deadline = time.Now().Add(40 * time.Second)
	if v.thorough {
		v.deadline = time.Now().Add(240 * time.Second)
	}
	fmt.Println("VFBOUND " + bound)
	return v
}
func (v *vfRun) n(quick int) int {
	if v.thorough {
		return quick * 20
	}
	return quick
}
func (v *vfRun) over() bool { return v.viols >= 3 || time.Now().After(v.deadline) }
func (v *vfRun) viol(key, f string, a ...interface{}) {
	v.viols++
	s := fmt.Sprintf(f, a...)
	s = strings.ReplaceAll(s, "\n", " ")
	fmt.Println("VFVIOLATION " + key + ": " + s)
}

// run executes one case; class names what the case exercises (distinct classes count as distinct non-trivial cases)
func (v *vfRun) run(class string, f func()) {
	if v.over() {
		return
	}
	v.evals++
	if !v.seen[class] {
		v.seen[class] = true
		if v.samples < 4 {
			v.samples++
			fmt.Println("VFSAMPLE " + class)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 900 {
				st = st[:900]
			}
			v.viol("panic", "%s: the code panics: %v at %s", class, r, st)
		}
	}()
	f()
}

// limited runs f but gives up (reporting a hang) after d
func (v *vfRun) limited(class string, d time.Duration, f func()) {
	v.run(class, func() {
		done := make(chan interface{}, 1)
		go func() {
			defer func() { done <- recover() }()
			f()
		}()
		select {
		case r := <-done:
			if r != nil {
				panic(r)
			}
		case <-time.After(d):
			v.viol("hang", "%s: no result within %v", class, d)
		}
	})
}
func (v *vfRun) done() {
	fmt.Printf("VFSTAT %d %d\n", v.evals, len(v.seen))
}
func (v *vfRun) bytes(n int) []byte {
	b := make([]byte, n)
	v.rng.Read(b)
	return b
}

// vfPipe: an in-memory transport with everything written to one side readable on the other; reads never block
type vfConn struct {
	in    []byte
	out   []byte
	chunk int // largest piece handed out per read (0: all)
	wrote [][]byte
	dgram bool
	inD   [][]byte
}

func (c *vfConn) Read(p []byte) (int, error) {
	if c.dgram {
		if len(c.inD) == 0 {
			return 0, AlertWouldBlock
		}
		n := copy(p, c.inD[0])
		c.inD = c.inD[1:]
		return n, nil
	}
	if len(c.in) == 0 {
		return 0, AlertWouldBlock
	}
	n := len(c.in)
	if n > len(p) {
		n = len(p)
	}
	if c.chunk > 0 && n > c.chunk {
		n = c.chunk
	}
	copy(p, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}
func (c *vfConn) Write(p []byte) (int, error) {
	c.out = append(c.out, p...)
	c.wrote = append(c.wrote, append([]byte{}, p...))
	return len(p), nil
}

func vfBE(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func vfCat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
func vfHex(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x...(%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}
