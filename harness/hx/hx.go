// Package hx is the shared part of the harness: running generated cases with
// rapid under a fixed seed, counting what was generated, deterministic entropy
// for the code under test, and stand-ins for slow external parts.
package hx

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Infrastructure failures: never a verdict.

const infraExit = 3

// Infra reports that the harness itself could not work (no port, no tool ...).
func Infra(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HX-INFRA: "+format+"\n", args...)
	os.Exit(infraExit)
}

// ---------------------------------------------------------------------------
// Running cases.

// Case is one generated case.
type Case struct {
	*rapid.T
	rec *recorder
	nt  bool
	n   int // draws of FullBelow and Fresh
}

type recorder struct {
	mu         sync.Mutex
	evals      int
	nontrivial map[uint64]bool
	classes    map[string]int
	samples    []string
}

// NonTrivial marks the case as non-trivial; key describes it (distinct keys are
// counted once).
func (c *Case) NonTrivial(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	io.WriteString(h, s)
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	k := h.Sum64()
	if !c.rec.nontrivial[k] {
		c.rec.nontrivial[k] = true
		n := len(c.rec.nontrivial)
		if n <= 3 || n == 10 || n == 40 {
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			c.rec.samples = append(c.rec.samples, s)
		}
	}
	c.nt = true
}

// Class counts the case (or a step of it) under a label.
func (c *Case) Class(label string) {
	c.rec.mu.Lock()
	c.rec.classes[label]++
	c.rec.mu.Unlock()
}

// Count adds n to a label.
func (c *Case) Count(label string, n int) {
	c.rec.mu.Lock()
	c.rec.classes[label] += n
	c.rec.mu.Unlock()
}

type result struct {
	Test       string         `json:"test"`
	Shard      string         `json:"shard"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evals"`
	NonTrivial []string       `json:"nontrivial"`
	Classes    map[string]int `json:"classes"`
	Samples    []string       `json:"samples"`
	Failed     bool           `json:"failed"`
	Done       bool           `json:"done"`
	Seed       uint64         `json:"seed"`
}

func envFloat(name string, def float64) float64 {
	if s := os.Getenv(name); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			Infra("bad %s: %v", name, err)
		}
		return f
	}
	return def
}

// Seed derives the seed of a test from the run's seed, the shard and the test.
func seedFor(test string) uint64 {
	h := sha256.Sum256([]byte(os.Getenv("HX_SEED") + "|" + os.Getenv("HX_SHARD") + "|" + test))
	s := binary.BigEndian.Uint64(h[:8]) >> 1
	if s == 0 {
		s = 1
	}
	return s
}

// Check runs checks (times the scale of the tier) generated cases of f.
func Check(t *testing.T, checks int, rule string, f func(c *Case)) {
	t.Helper()
	rec := &recorder{nontrivial: map[uint64]bool{}, classes: map[string]int{}}
	n := int(float64(checks)*envFloat("HX_SCALE", 1) + 0.999)
	if n < 1 {
		n = 1
	}
	seed := seedFor(t.Name())
	if flag.Lookup("rapid.failfile").Value.String() == "" {
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	}
	out := os.Getenv("HX_OUT")
	write := func(done bool) {
		if out == "" {
			return
		}
		r := result{Test: t.Name(), Shard: os.Getenv("HX_SHARD"), Rule: rule, Evals: rec.evals,
			Classes: rec.classes, Samples: rec.samples, Failed: t.Failed(), Done: done, Seed: seed}
		for k := range rec.nontrivial {
			r.NonTrivial = append(r.NonTrivial, strconv.FormatUint(k, 16))
		}
		sort.Strings(r.NonTrivial)
		b, err := json.Marshal(r)
		if err != nil {
			Infra("%v", err)
		}
		if err := os.WriteFile(filepath.Join(out, t.Name()+".json"), b, 0o644); err != nil {
			Infra("%v", err)
		}
	}
	write(false)
	restore := silence()
	defer func() { restore(); write(true) }()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{T: rt, rec: rec}
		rec.mu.Lock()
		rec.evals++
		rec.mu.Unlock()
		c.seedEntropy()
		f(c)
	})
}

// ---------------------------------------------------------------------------
// Entropy: everything the code under test draws comes from a stream that is a
// function of the case.

type lockedStream struct {
	mu sync.Mutex
	s  cipher.Stream
}

func (l *lockedStream) XORKeyStream(dst, src []byte) {
	l.mu.Lock()
	l.s.XORKeyStream(dst, src)
	l.mu.Unlock()
}

// SetEntropy replaces the random source of the code under test.
func SetEntropy(seed string) {
	k := sha256.Sum256([]byte(seed))
	b, err := aes.NewCipher(k[:16])
	if err != nil {
		Infra("%v", err)
	}
	random.Stream = &lockedStream{s: cipher.NewCTR(b, k[16:])}
}

// NewEntropy gives the code under test another random source, different from all earlier
// ones of the case.
func (c *Case) NewEntropy() {
	c.n++
	SetEntropy(fmt.Sprintf("again %d/%d", rapid.Uint64().Draw(c.T, "source"), c.n))
}

func (c *Case) seedEntropy() {
	a := rapid.Uint64().Draw(c.T, "entropyA")
	b := rapid.Uint32().Draw(c.T, "entropyB")
	SetEntropy(fmt.Sprintf("%d/%d", a, b))
}

// ---------------------------------------------------------------------------
// The group, as plain integers (independent of the code under test).

var (
	suite = nist.NewAES128SHA256QR512()
	// Q is the order of the group, P = 2Q+1 its modulus.
	Q, _ = new(big.Int).SetString("5099133861178675934299038070513690140208594154615901954959232152506056770707302268711370548280642524887896017588520836152823386566007063045571431221913131", 10)
	P   = new(big.Int).Add(new(big.Int).Lsh(Q, 1), big.NewInt(1))
	Gen = big.NewInt(4)
)

// Suite returns the suite all nodes use.
func Suite() abstract.Suite { return suite }

// I returns the integer of a group element.
func I(p abstract.Point) *big.Int {
	b, err := p.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return new(big.Int).SetBytes(b)
}

// S returns the integer of a secret.
func S(s abstract.Secret) *big.Int {
	return new(big.Int).Set(&s.(*nist.Int).V)
}

// Sec makes a secret from an integer (mod Q).
func Sec(i *big.Int) abstract.Secret {
	s := suite.Secret()
	s.(*nist.Int).V.Mod(i, Q)
	return s
}

// Pt makes a group element from an integer that is in the group.
func Pt(i *big.Int) abstract.Point {
	p := suite.Point()
	if err := p.UnmarshalBinary(i.Bytes()); err != nil {
		panic("harness: not in the group: " + i.String())
	}
	return p
}

// Exp is b^e mod P, with e reduced mod Q.
func Exp(b, e *big.Int) *big.Int {
	return new(big.Int).Exp(b, new(big.Int).Mod(e, Q), P)
}

// Mul is the product mod P.
func Mul(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
		r.Mod(r, P)
	}
	return r
}

// Inv is the inverse mod P.
func Inv(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, P) }

// Opens tells whether comm = gt^x * ht^r.
func Opens(gt, ht abstract.Point, x, r *big.Int, comm abstract.Point) bool {
	return Mul(Exp(I(gt), x), Exp(I(ht), r)).Cmp(I(comm)) == 0
}

// ---------------------------------------------------------------------------
// Generators.

// BigBelow draws an integer in [lo, mod): mostly of full size, sometimes small or
// close to the top.
func (c *Case) BigBelow(mod *big.Int, lo int64, label string) *big.Int {
	var v *big.Int
	switch rapid.IntRange(0, 9).Draw(c.T, label+"Kind") {
	case 0:
		v = big.NewInt(lo + rapid.Int64Range(0, 20).Draw(c.T, label))
	case 1:
		v = new(big.Int).Sub(mod, big.NewInt(1+rapid.Int64Range(0, 20).Draw(c.T, label)))
	default:
		return c.FullBelow(mod, lo, label)
	}
	v.Mod(v, mod)
	if v.Cmp(big.NewInt(lo)) < 0 {
		v.SetInt64(lo)
	}
	return v
}

// FullBelow draws an integer in [lo, mod) without special values.
func (c *Case) FullBelow(mod *big.Int, lo int64, label string) *big.Int {
	// the count keeps two draws apart when both are small, as rapid's draws often are
	c.n++
	h := sha256.New()
	fmt.Fprintf(h, "%d/%d/%d", rapid.Uint64().Draw(c.T, label), rapid.Uint16().Draw(c.T, label+"b"), c.n)
	b := h.Sum(nil)
	for len(b) < mod.BitLen()/8+9 {
		x := sha256.Sum256(b)
		b = append(b, x[:]...)
	}
	v := new(big.Int).SetBytes(b)
	v.Mod(v, mod)
	if v.Cmp(big.NewInt(lo)) < 0 {
		v.SetInt64(lo)
	}
	return v
}

// Full draws an exponent nobody could guess.
func (c *Case) Full(label string) *big.Int { return c.FullBelow(Q, 1, label) }

// Secret draws a non-zero exponent.
func (c *Case) Secret(label string) *big.Int { return c.BigBelow(Q, 1, label) }

// Elem draws a group element (a power of the generator) with its logarithm.
func (c *Case) Elem(label string) (*big.Int, *big.Int) {
	e := c.Secret(label)
	return Exp(Gen, e), e
}

// Int draws from a range.
func (c *Case) Int(lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(c.T, label) }

// Tail draws from [lo, hi] mostly and sometimes from (hi, far].
func (c *Case) Tail(lo, hi, far int, label string) int {
	if far > hi && rapid.IntRange(0, 7).Draw(c.T, label+"Tail") == 7 {
		c.Class("large " + label)
		return rapid.IntRange(hi+1, far).Draw(c.T, label)
	}
	return rapid.IntRange(lo, hi).Draw(c.T, label)
}

// Bool draws a bit.
func (c *Case) Bool(label string) bool { return rapid.Bool().Draw(c.T, label) }

// Bytes draws a byte string.
func (c *Case) Bytes(lo, hi int, label string) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(c.T, label)
}

// Hex abbreviates bytes.
func Hex(b []byte) string {
	if len(b) > 12 {
		return hex.EncodeToString(b[:12]) + fmt.Sprintf("..(%d)", len(b))
	}
	return hex.EncodeToString(b)
}

// Short abbreviates a number.
func Short(i *big.Int) string {
	s := i.String()
	if len(s) > 16 {
		return s[:7] + ".." + s[len(s)-7:]
	}
	return s
}

// ---------------------------------------------------------------------------
// Quiet: the code under test prints a lot.

// silence sends the standard output of the code under test to /dev/null until the
// returned function is called.
func silence() func() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		Infra("%v", err)
	}
	old := os.Stdout
	os.Stdout = null
	return func() { os.Stdout = old }
}

// Panics runs f and reports whether it panicked, with the message.
func Panics(f func()) (msg string, did bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(runtime.Error); ok {
				buf := make([]byte, 4096)
				buf = buf[:runtime.Stack(buf, false)]
				msg = fmt.Sprint(e) + "\n" + string(buf)
			} else {
				msg = fmt.Sprint(e)
			}
			did = true
		}
	}()
	f()
	return
}

// ---------------------------------------------------------------------------
// Stand-in for `openssl prime`: the real tool takes up to 100 ms per prime.

// StubOpenssl puts a program called openssl first in PATH that prints safe primes of
// the given size from a fixed list, cycling. Anything that is not a request for a
// generated safe prime goes to the real program.
func StubOpenssl(dir string, primes []string) {
	real, _ := exec.LookPath("openssl")
	var b strings.Builder
	b.WriteString("#!/bin/sh\n")
	fmt.Fprintf(&b, "case \"$1 $*\" in prime*-generate*) ;; *) exec %s \"$@\";; esac\n", real)
	fmt.Fprintf(&b, "n=$(cat %s/count 2>/dev/null || echo 0)\n", dir)
	fmt.Fprintf(&b, "echo $(( (n + 1) %% %d )) > %s/count\n", len(primes), dir)
	b.WriteString("case $n in\n")
	for i, p := range primes {
		fmt.Fprintf(&b, "%d) echo %s;;\n", i, p)
	}
	b.WriteString("esac\n")
	if err := os.WriteFile(filepath.Join(dir, "openssl"), []byte(b.String()), 0o755); err != nil {
		Infra("%v", err)
	}
	os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
}

// ResetOpenssl restarts the list of the stand-in.
func ResetOpenssl(dir string, at int) {
	if err := os.WriteFile(filepath.Join(dir, "count"), []byte(strconv.Itoa(at)), 0o644); err != nil {
		Infra("%v", err)
	}
}

// Sorted returns the keys of a map in order, so that cases replay.
func Sorted[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
