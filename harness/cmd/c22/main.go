// C22: an SRS is written only for a fully verified ceremony, and it is the one
// of its last contribution. The real function runs in a process of its own in a
// scratch directory; its downloads are answered by a stand-in for the network.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"vharness/chk"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	"github.com/succinctlabs/gnark-plonky2-verifier/trusted_setup"
	"golang.org/x/crypto/blake2b"
)

func main() {
	if d := os.Getenv("C22_CHILD"); d != "" {
		child(d)
		return
	}
	chk.Main(chk.Opt{ID: "C22", Level: "exploration",
		Rule:        "one evaluation = one run of the real download function in its own process and scratch directory over a generated ceremony (start, number of contributions, transcripts, points) with at most a few faults, whose requests were recorded and whose file, if any, was decoded and compared with the last contribution; distinct = kind of fault x its position relative to start and end x earlier file x start",
		Assumptions: []string{"contributions are judged by their discrete logarithms, which the generator knows", "gnark-ignition-verifier's pairing checks are part of the code run, not of the oracle"},
		Need:        []string{"valid:", "fault:", "history:", "before_start:", "usable:"}}, run)
}

// net is the stand-in: it answers from the directory "net", with the faults of
// its "faults.json", and records what it was asked.
type net struct {
	dir    string
	faults map[string]string
	mu     sync.Mutex
	log    *os.File
}

func (n *net) RoundTrip(r *http.Request) (*http.Response, error) {
	parts := strings.Split(r.URL.Path, "/")
	name := parts[len(parts)-1]
	if name != "manifest.json" && len(parts) > 1 {
		name = parts[len(parts)-2] + "_" + name
	}
	n.mu.Lock()
	fmt.Fprintln(n.log, name)
	n.mu.Unlock()
	res := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r}
	b, err := os.ReadFile(filepath.Join(n.dir, name))
	if err != nil {
		n.faults[name] = "404"
	}
	switch n.faults[name] {
	case "refused":
		return nil, fmt.Errorf("connection refused")
	case "404":
		res.StatusCode, res.Status = 404, "404 Not Found"
		b = []byte("<?xml version=\"1.0\"?><Error><Code>NoSuchKey</Code><Message>The specified key does not exist.</Message></Error>")
	case "empty":
		b = nil
	case "cut":
		res.Body = io.NopCloser(io.MultiReader(bytes.NewReader(b[:len(b)/2]), broken{}))
		res.ContentLength = int64(len(b))
		return res, nil
	case "short":
		b = b[:len(b)/2]
	case "nosum":
		b = b[:len(b)-64]
	}
	res.ContentLength = int64(len(b))
	res.Body = io.NopCloser(bytes.NewReader(b))
	return res, nil
}

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

func child(d string) {
	if err := os.Chdir(d); err != nil {
		os.Exit(90)
	}
	n := &net{dir: filepath.Join(d, "net"), faults: map[string]string{}}
	if b, err := os.ReadFile(filepath.Join(d, "faults.json")); err == nil {
		json.Unmarshal(b, &n.faults)
	}
	n.log, _ = os.OpenFile(filepath.Join(d, "asked"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	http.DefaultTransport = n
	http.DefaultClient = &http.Client{Transport: n}
	s, _ := strconv.Atoi(os.Getenv("C22_START"))
	trusted_setup.DownloadAndSaveAztecIgnitionSrs(s, os.Getenv("C22_FILE"))
	fmt.Fprintln(os.Stderr, "C22 RETURNED")
}

// contribution by its logarithms.
type contribution struct {
	g1   []fr.Element
	g2   [2]fr.Element
	pos  int
	addr string
	// raw replaces a G1 point by something that is not on the curve
	raw int
	// how many points per transcript
	per int
	// bytes to disturb after the checksum was computed: -1 none
	flip  int
	which int
}

func (c *contribution) valid() bool {
	if c.raw >= 0 || c.flip >= 0 {
		return false
	}
	for i := 0; i+1 < len(c.g1); i++ {
		var x fr.Element
		x.Mul(&c.g1[i], &c.g2[0])
		if !x.Equal(&c.g1[i+1]) {
			return false
		}
	}
	return true
}

func (c *contribution) follows(p *contribution) bool {
	var x fr.Element
	x.Mul(&p.g1[0], &c.g2[1])
	return x.Equal(&c.g1[0])
}

func words(x *fp.Element) []byte {
	var b big.Int
	x.BigInt(&b)
	var le [32]byte
	b.FillBytes(le[:])
	o := make([]byte, 0, 32)
	for i := 3; i >= 0; i-- { // least significant word first, each big endian
		o = append(o, le[8*i:8*i+8]...)
	}
	return o
}

var g1gen, g2gen = func() (bn254.G1Affine, bn254.G2Affine) { _, _, a, b := bn254.Generators(); return a, b }()

func (c *contribution) points() []bn254.G1Affine {
	return bn254.BatchScalarMultiplicationG1(&g1gen, c.g1)
}

func mulG2(s fr.Element) (r bn254.G2Affine) {
	var b big.Int
	s.BigInt(&b)
	r.ScalarMultiplication(&g2gen, &b)
	return
}

// write puts the transcripts into the stand-in's directory.
func (c *contribution) write(dir string) (names []string) {
	pts := c.points()
	if c.raw >= 0 {
		pts[c.raw].Y.SetUint64(12345)
	}
	n := len(pts)
	tot := (n + c.per - 1) / c.per
	for k := 0; k < tot; k++ {
		lo, hi := k*c.per, (k+1)*c.per
		if hi > n {
			hi = n
		}
		var b []byte
		u := func(x int) { b = binary.BigEndian.AppendUint32(b, uint32(x)) }
		u(k)
		u(tot)
		u(n)
		u(1)
		u(hi - lo)
		if k == 0 {
			u(2)
		} else {
			u(0)
		}
		u(lo)
		for i := lo; i < hi; i++ {
			b = append(b, words(&pts[i].X)...)
			b = append(b, words(&pts[i].Y)...)
		}
		if k == 0 {
			for j := 0; j < 2; j++ {
				q := mulG2(c.g2[j])
				for _, e := range []*fp.Element{&q.X.A0, &q.X.A1, &q.Y.A0, &q.Y.A1} {
					b = append(b, words(e)...)
				}
			}
		}
		h := blake2b.Sum512(b)
		b = append(b, h[:]...)
		if c.flip >= 0 && c.which%tot == k {
			// the header's sizes stay: a changed one is another fault
			b[28+c.flip%(len(b)-28)] ^= 1 << (c.flip % 8)
		}
		name := fmt.Sprintf("%03d_%s_transcript%02d.dat", c.pos, strings.ToLower(c.addr), k)
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			panic(err)
		}
		names = append(names, name)
	}
	return
}

type ceremony struct {
	cs     []*contribution
	n      int // points the manifest says
	faults map[string]string
	names  [][]string
	bad    map[int]bool // contributions that do not arrive as written
}

func rnd(r *rand.Rand) (x fr.Element) {
	b := make([]byte, 48)
	r.Read(b)
	x.SetBytes(b)
	return
}

// next makes an honest contribution on top of p.
func next(r *rand.Rand, p *contribution, n int) *contribution {
	c := &contribution{raw: -1, flip: -1, per: n}
	if r.Intn(2) == 0 {
		c.per = 20 + r.Intn(n)
	}
	hex := "0123456789abcdefABCDEF"
	c.addr = "0x"
	for i := 0; i < 40; i++ {
		c.addr += string(hex[r.Intn(len(hex))])
	}
	s := rnd(r)
	var base, tau fr.Element
	if p == nil {
		base, tau = s, s
	} else {
		base.Mul(&p.g1[0], &s)
		tau.Mul(&p.g2[0], &s)
	}
	c.pow(base, tau, n)
	c.g2[1] = s
	return c
}

func (c *contribution) pow(base, tau fr.Element, n int) {
	c.g1 = make([]fr.Element, n)
	c.g1[0] = base
	for i := 1; i < n; i++ {
		c.g1[i].Mul(&c.g1[i-1], &tau)
	}
	c.g2[0] = tau
}

func make_(r *rand.Rand, k, n int) *ceremony {
	y := &ceremony{n: n, faults: map[string]string{}, bad: map[int]bool{}}
	var p *contribution
	pos := 1 + r.Intn(3)
	for i := 0; i < k; i++ {
		p = next(r, p, n)
		p.pos = pos
		pos += 1 + r.Intn(3)
		y.cs = append(y.cs, p)
	}
	return y
}

func (y *ceremony) store(d string) {
	nd := filepath.Join(d, "net")
	os.RemoveAll(nd)
	os.MkdirAll(nd, 0o755)
	type part struct {
		Address  string `json:"address"`
		Position int    `json:"position"`
	}
	var ps []part
	y.names = nil
	for _, c := range y.cs {
		y.names = append(y.names, c.write(nd))
		ps = append(ps, part{c.addr, c.pos})
	}
	b, _ := json.Marshal(map[string]any{"name": "TEST", "numG1Points": y.n, "numG2Points": 1, "pointsPerTranscript": y.n, "participants": ps})
	os.WriteFile(filepath.Join(nd, "manifest.json"), b, 0o644)
}

func (y *ceremony) setFaults(d string) {
	b, _ := json.Marshal(y.faults)
	os.WriteFile(filepath.Join(d, "faults.json"), b, 0o644)
}

// good: the ceremony from start on deserves a file.
func (y *ceremony) good(start int) bool {
	if start < 0 || start+1 >= len(y.cs) {
		return false
	}
	if y.faults["manifest.json"] != "" {
		return false
	}
	// nothing can be committed to with neutral elements
	if l := y.cs[len(y.cs)-1]; l.g1[0].IsZero() || l.g2[0].IsZero() {
		return false
	}
	for i := start; i < len(y.cs); i++ {
		c := y.cs[i]
		if !c.valid() || y.bad[i] || len(c.g1) != y.n {
			return false
		}
		for _, n := range y.names[i] {
			if y.faults[n] != "" {
				return false
			}
		}
		if i > start && !c.follows(y.cs[i-1]) {
			return false
		}
	}
	return true
}

type outcome struct {
	code  int
	out   string
	file  []byte
	asked []string
}

func scratch() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c22")
	if err != nil {
		panic(err)
	}
	return d
}

func invoke(d string, start int, file string) (o outcome) {
	os.Remove(filepath.Join(d, "asked"))
	cmd := exec.Command(os.Args[0])
	cmd.Dir = d
	cmd.Env = append(os.Environ(), "C22_CHILD="+d, fmt.Sprintf("C22_START=%d", start), "C22_FILE="+file, "GOMAXPROCS=4", "GOTRACEBACK=none")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	tm := time.AfterFunc(3*time.Minute, func() { cmd.Process.Kill() })
	cmd.Wait()
	if !tm.Stop() {
		panic("the download did not end within three minutes")
	}
	o.code = cmd.ProcessState.ExitCode()
	if o.code == 90 {
		panic("the child could not enter its directory")
	}
	o.out = buf.String()
	o.file, _ = os.ReadFile(filepath.Join(d, file))
	b, _ := os.ReadFile(filepath.Join(d, "asked"))
	o.asked = strings.Fields(string(b))
	return
}

func tail(s string) string {
	if len(s) > 600 {
		return "..." + s[len(s)-600:]
	}
	return s
}

// decode reads an SRS file whole.
func decode(b []byte) (*kzg.SRS, error) {
	srs := &kzg.SRS{}
	r := bytes.NewReader(b)
	if _, err := srs.ReadFrom(r); err != nil {
		return nil, err
	}
	if r.Len() != 0 {
		return nil, fmt.Errorf("%d bytes follow the SRS", r.Len())
	}
	return srs, nil
}

// expect compares a written file with the last contribution.
func (y *ceremony) expect(b []byte) string {
	srs, err := decode(b)
	if err != nil {
		return fmt.Sprintf("the file is not an SRS: %v", err)
	}
	c := y.cs[len(y.cs)-1]
	pts := c.points()
	if len(srs.Pk.G1) != len(pts) {
		return fmt.Sprintf("%d powers instead of %d", len(srs.Pk.G1), len(pts))
	}
	for i := range pts {
		if !pts[i].Equal(&srs.Pk.G1[i]) {
			return fmt.Sprintf("power %d is not the last contribution's", i)
		}
	}
	tau := mulG2(c.g2[0])
	if !srs.Vk.G1.Equal(&pts[0]) {
		return "the generator of the verification key is not the first power"
	}
	if !srs.Vk.G2[0].Equal(&g2gen) || !srs.Vk.G2[1].Equal(&tau) {
		return "the verification key is not the last contribution's"
	}
	return ""
}

// usable commits and opens with a decoded file.
func usable(r *rand.Rand, b []byte) string {
	srs, err := decode(b)
	if err != nil {
		return err.Error()
	}
	f := make([]fr.Element, len(srs.Pk.G1))
	for i := range f {
		f[i] = rnd(r)
	}
	z := rnd(r)
	d, err := kzg.Commit(f, srs.Pk, 2)
	if err != nil {
		return err.Error()
	}
	p, err := kzg.Open(f, z, srs.Pk)
	if err != nil {
		return err.Error()
	}
	if err := kzg.Verify(&d, &p, z, srs.Vk); err != nil {
		return "an opening does not verify: " + err.Error()
	}
	one := fr.One()
	p.ClaimedValue.Add(&p.ClaimedValue, &one)
	if kzg.Verify(&d, &p, z, srs.Vk) == nil {
		return "a wrong opening verifies"
	}
	return ""
}

var _ = ecc.BN254

// judge runs the function and decides.
func judge(t *chk.T, y *ceremony, d string, start int, file string, old []byte, key string) (o outcome) {
	if old != nil {
		os.WriteFile(filepath.Join(d, file), old, 0o644)
	} else {
		os.Remove(filepath.Join(d, file))
	}
	o = invoke(d, start, file)
	t.C.Stat("requests", len(o.asked))
	written := !bytes.Equal(o.file, old) || (old == nil && o.file != nil)
	if !y.good(start) {
		if _, err := os.Stat(filepath.Join(d, file)); (err == nil) != (old != nil) || written {
			t.Fail("start %d of %d contributions, %s: a file was %s although the ceremony is not valid; the process said %s", start, len(y.cs), key, map[bool]string{true: "written", false: "replaced"}[old == nil], tail(o.out))
			return
		}
		t.OK(key)
		return
	}
	if !written {
		t.Fail("start %d of %d contributions, %s: no file was written for a valid ceremony; the process said %s", start, len(y.cs), key, tail(o.out))
		return
	}
	if m := y.expect(o.file); m != "" {
		t.Fail("start %d of %d contributions, %s: %s", start, len(y.cs), key, m)
		return
	}
	t.OK(key)
	return
}

func run(c *chk.Check) {
	f := 1
	if c.Thorough {
		f = 12
	}
	// valid ceremonies: every start and number of contributions
	for k := 2; k <= 7; k++ {
		for s := 0; s+1 < k; s++ {
			for j := 0; j < f; j++ {
				c.Case(fmt.Sprintf("valid/%d/%d/%d", k, s, j), func(t *chk.T) { valid(t, k, s) })
			}
		}
	}
	for i, nm := range kinds {
		for j := 0; j < 30*f; j++ {
			c.Case(fmt.Sprintf("fault/%s/%d", nm, j), func(t *chk.T) { fault(t, i, j) })
		}
	}
	for j := 0; j < 40*f; j++ {
		c.Case(fmt.Sprintf("history/%d", j), func(t *chk.T) { history(t, j) })
	}
	for j := 0; j < 4*f; j++ {
		c.Case(fmt.Sprintf("outside/%d", j), func(t *chk.T) { outside(t, j) })
	}
}

func size(t *chk.T) int { return []int{60, 61, 64, 75, 100, 130}[t.R.Intn(6)] }

func oldFile(t *chk.T) []byte {
	switch t.R.Intn(3) {
	case 0:
		return []byte("an earlier file")
	case 1:
		b := make([]byte, 20000)
		t.R.Read(b)
		return b
	}
	return nil
}

func valid(t *chk.T, k, s int) {
	d := scratch()
	defer os.RemoveAll(d)
	y := make_(t.R, k, size(t))
	// what comes before the start does not matter
	if s > 0 && t.R.Intn(2) == 0 {
		i := t.R.Intn(s)
		y.cs[i].raw = t.R.Intn(y.n)
	}
	y.store(d)
	y.setFaults(d)
	old := oldFile(t)
	o := judge(t, y, d, s, "srs_setup", old, fmt.Sprintf("valid:%d:%d:%v", k, s, old != nil))
	if t.Failed() {
		return
	}
	if m := usable(t.R, o.file); m != "" {
		t.Fail("the written SRS: %s", m)
		return
	}
	t.OK(fmt.Sprintf("usable:%d", len(y.cs)-s))
	// every contribution that counts was fetched, whole
	got := map[string]bool{}
	for _, a := range o.asked {
		got[a] = true
	}
	for i := s; i < k; i++ {
		for _, n := range y.names[i] {
			if !got[n] {
				t.Fail("%s was never fetched, but the SRS was written", n)
			}
		}
	}
	if s > 0 {
		t.OK(fmt.Sprintf("before_start:%d", s))
	}
}

var kinds = []string{"refused", "404", "empty", "cut", "short", "nosum", "flip", "offcurve", "point", "tail", "tau", "proof", "chain", "swap", "skip", "twice", "fewer", "more", "manifest", "restart", "scale", "zero", "zerotau"}

func fault(t *chk.T, kind, j int) {
	d := scratch()
	defer os.RemoveAll(d)
	k := 2 + t.R.Intn(5)
	s := t.R.Intn(k - 1)
	n := size(t)
	y := make_(t.R, k, n)
	// the position: the first, the second, the last and any other
	at := s + t.R.Intn(k-s)
	switch j % 5 {
	case 0:
		at = k - 1
	case 1:
		at = s
	case 2:
		at = s + 1
	case 3:
		if s > 0 {
			at = t.R.Intn(s)
		}
	}
	c := y.cs[at]
	one := fr.One()
	switch kinds[kind] {
	case "refused", "404", "empty", "cut", "short", "nosum":
		y.store(d)
		ns := y.names[at]
		y.faults[ns[t.R.Intn(len(ns))]] = kinds[kind]
	case "flip":
		c.flip = t.R.Intn(1 << 20)
		c.which = t.R.Intn(3)
	case "offcurve":
		c.raw = t.R.Intn(n)
	case "point": // one point is another one of the curve
		i := t.R.Intn(n)
		if j%3 == 0 {
			i = []int{0, n - 1, 1}[t.R.Intn(3)]
		}
		c.g1[i] = rnd(t.R)
	case "tail": // powers of another secret from some index on
		i := 1 + t.R.Intn(n-1)
		x := rnd(t.R)
		for ; i < n; i++ {
			c.g1[i].Mul(&c.g1[i-1], &x)
		}
	case "tau": // verification key of another secret
		c.g2[0].Add(&c.g2[0], &one)
	case "proof": // does not show what it multiplied with
		c.g2[1].Add(&c.g2[1], &one)
	case "chain": // valid, but of another chain
		x := next(t.R, nil, n)
		x.pos, x.addr = c.pos, c.addr
		y.cs[at] = x
	case "restart": // valid and everything after it continues it
		x := next(t.R, nil, n)
		x.pos, x.addr = c.pos, c.addr
		y.cs[at] = x
		for i := at + 1; i < k; i++ {
			z := next(t.R, y.cs[i-1], n)
			z.pos, z.addr = y.cs[i].pos, y.cs[i].addr
			y.cs[i] = z
		}
	case "scale": // powers of its secret, times another factor, the rest continues it
		x := rnd(t.R)
		for i := range c.g1 {
			c.g1[i].Mul(&c.g1[i], &x)
		}
		for i := at + 1; i < k; i++ {
			for l := range y.cs[i].g1 {
				y.cs[i].g1[l].Mul(&y.cs[i].g1[l], &x)
			}
		}
	case "zero", "zerotau": // nothing but the neutral element, and the rest continues it
		for ; at < k; at++ {
			for i := range y.cs[at].g1 {
				if kinds[kind] == "zero" || i > 0 {
					y.cs[at].g1[i].SetZero()
				}
			}
			if kinds[kind] == "zero" {
				y.cs[at].g2[1].SetZero()
				if j%2 == 0 {
					y.cs[at].g2[0].SetZero()
				}
			} else {
				y.cs[at].g2[0].SetZero()
			}
		}
		at = k - 1
	case "swap":
		o := s + t.R.Intn(k-s)
		y.cs[at], y.cs[o] = y.cs[o], y.cs[at]
	case "skip":
		y.cs = append(y.cs[:at], y.cs[at+1:]...)
	case "twice":
		x := *c
		x.pos += 1000
		y.cs = append(y.cs[:at+1], append([]*contribution{&x}, y.cs[at+1:]...)...)
	case "fewer": // points missing at the end
		c.g1 = c.g1[:n-1-t.R.Intn(n-2)]
	case "more":
		var x fr.Element
		x.Mul(&c.g1[n-1], &c.g2[0])
		c.g1 = append(c.g1, x)
	}
	if kinds[kind] == "manifest" {
		y.store(d)
		y.faults["manifest.json"] = []string{"refused", "404", "empty", "cut", "short"}[t.R.Intn(5)]
	} else {
		y.store(d)
	}
	y.setFaults(d)
	where := "inner"
	switch {
	case at < s:
		where = "before"
	case at == k-1:
		where = "last"
	case at == s:
		where = "start"
	case at == s+1:
		where = "second"
	}
	old := oldFile(t)
	// without old file, the name varies
	file := "srs_setup"
	if old == nil && t.R.Intn(2) == 0 {
		os.MkdirAll(filepath.Join(d, "sub"), 0o755)
		file = "sub/out.bin"
	}
	judge(t, y, d, s, file, old, fmt.Sprintf("fault:%s:%s:%v", kinds[kind], where, old != nil))
}

// history: runs after one another in one directory, with what is left there.
func history(t *chk.T, j int) {
	d := scratch()
	defer os.RemoveAll(d)
	k := 3 + t.R.Intn(3)
	y := make_(t.R, k, size(t))
	y.store(d)
	s := t.R.Intn(k - 1)
	key := ""
	var old []byte
	everBad := map[int]bool{}
	for step := 0; step < 3; step++ {
		y.faults = map[string]string{}
		kind := "none"
		if step < 2 && t.R.Intn(3) > 0 {
			kind = []string{"refused", "404", "cut", "short"}[t.R.Intn(4)]
			at := t.R.Intn(k)
			y.faults[y.names[at][0]] = kind
			everBad[at] = true
		}
		y.setFaults(d)
		key += kind + ","
		o := invoke(d, s, "srs")
		changed := !bytes.Equal(o.file, old)
		if changed {
			// a file must be right; it may be missing because of what a failed
			// download left in the cache
			if m := y.expect(o.file); m != "" {
				t.Fail("after runs with %s: %s; %s", key, m, tail(o.out))
				return
			}
			if !y.good(s) && step == 0 {
				t.Fail("start %d of %d contributions, faults %v: written: %s", s, k, y.faults, tail(o.out))
				return
			}
			old = o.file
		} else if old == nil && y.good(s) && len(everBad) == 0 {
			t.Fail("no file for a valid ceremony after runs with %s: %s", key, tail(o.out))
			return
		}
		t.OK("history:" + key)
	}
}

// outside: starts without a following contribution.
func outside(t *chk.T, j int) {
	d := scratch()
	defer os.RemoveAll(d)
	k := 2 + t.R.Intn(3)
	y := make_(t.R, k, size(t))
	y.store(d)
	y.setFaults(d)
	s := []int{k - 1, k, -1, k + 5}[j%4]
	old := oldFile(t)
	judge(t, y, d, s, "srs_setup", old, fmt.Sprintf("fault:start:%d:%v", j%4, old != nil))
}
