// C23: the benchmark tool ends successfully only with a verified proof, and
// what it writes and prints belongs together. The tool is built from /repo
// with a small statement in place of the 6 million constraints of a plonky2
// verifier, and run in scratch directories; its exit status, files and output
// are judged afterwards.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"vharness/adapt"
	"vharness/chk"
	"vharness/e2e"
	"vharness/prover"
	"vharness/ref"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	bnkzg "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	"github.com/consensys/gnark/backend/groth16"
	g16 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
	"github.com/consensys/gnark/std/rangecheck"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

const module = "github.com/succinctlabs/gnark-plonky2-verifier"

// statement is what replaces the verification, in the tool and here: the
// weighted sum of the squares of the public inputs is the proof of work witness.
const statement = `
func (c *%s) verifStatement(api frontend.API) error {
	var s frontend.Variable = 0
	r := rangecheck.New(api)
	for i, p := range c.PublicInputs {
		r.Check(p.Limb, 64)
		s = api.Add(s, api.Mul(p.Limb, p.Limb, i+1))
	}
	api.AssertIsEqual(s, c.Proof.OpeningProof.PowWitness.Limb)
	return nil
}
`

type small struct {
	PublicInputs []gl.Variable     `gnark:",public"`
	Pow          frontend.Variable `gnark:"-"`
}

func (c *small) Define(api frontend.API) error {
	var s frontend.Variable = 0
	r := rangecheck.New(api)
	for i, p := range c.PublicInputs {
		r.Check(p.Limb, 64)
		s = api.Add(s, api.Mul(p.Limb, p.Limb, i+1))
	}
	api.AssertIsEqual(s, c.Pow)
	return nil
}

var tool string

func scratch() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	x, err := os.MkdirTemp(d, "c23.")
	if err != nil {
		panic(err)
	}
	return x
}

func main() {
	logger.Disable()
	chk.Main(chk.Opt{ID: "C23", Level: "exploration",
		Rule:        "one evaluation = one run of the tool in a scratch directory whose exit status, files and output were judged: on success the proof file verifies with the key file for the public inputs of the proof it was given, the proving key makes such proofs, the witness, the contract and the printed coordinates are those of the same run; distinct = proof system x setup x saving x profiling x number of public inputs, or the kind of fault",
		Assumptions: []string{"ExampleVerifierCircuit's Define is replaced by a small statement over the public inputs and the proof (what it proves is decided by C01-C21); everything else of the tool is the real code", "gnark's keys, provers and verifiers are the oracle for artefacts"},
		Need:        []string{"valid:groth16", "valid:plonk", "fault:", "srs:", "history:"}}, run)
}

// build builds the tool with the small statement in place of the verification.
func build() error {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off")
	gobin, err := exec.LookPath("go1.23")
	if err != nil {
		gobin = "go"
	}
	hd := filepath.Join(chk.Dir, "harness")
	c := exec.Command(gobin, "list", "-m", "-f", "{{.Dir}}", module)
	c.Dir, c.Env = hd, env
	o, err := c.Output()
	if err != nil {
		return fmt.Errorf("go list: %v", err)
	}
	repo := strings.TrimSpace(string(o))
	files, _ := filepath.Glob(filepath.Join(repo, "verifier", "*.go"))
	d := scratch()
	over := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		x, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			return err
		}
		for _, k := range x.Decls {
			fn, ok := k.(*ast.FuncDecl)
			if !ok || fn.Name.Name != "Define" || fn.Recv == nil || len(fn.Recv.List) != 1 || fn.Body == nil {
				continue
			}
			st, ok := fn.Recv.List[0].Type.(*ast.StarExpr)
			if !ok {
				continue
			}
			ty, ok := st.X.(*ast.Ident)
			if !ok || ty.Name != "ExampleVerifierCircuit" {
				continue
			}
			// the original body stays, under another name
			name := fs.Position(fn.Name.Pos()).Offset
			n := string(src[:name]) + "verifOriginal" + string(src[name+len("Define"):])
			p := filepath.Join(d, filepath.Base(f))
			if err := os.WriteFile(p, []byte(n), 0o644); err != nil {
				return err
			}
			over[f] = p
			q := filepath.Join(d, "zz_statement.go")
			s := "package verifier\n\nimport (\n\t\"github.com/consensys/gnark/frontend\"\n\t\"github.com/consensys/gnark/std/rangecheck\"\n)\n" + fmt.Sprintf(statement, ty.Name) +
				fmt.Sprintf("\nfunc (c *%s) Define(api frontend.API) error { return c.verifStatement(api) }\n", ty.Name)
			if err := os.WriteFile(q, []byte(s), 0o644); err != nil {
				return err
			}
			over[filepath.Join(repo, "verifier", "zz_statement_verif.go")] = q
		}
	}
	if len(over) != 2 {
		return fmt.Errorf("no Define of ExampleVerifierCircuit found in %s/verifier", repo)
	}
	b, _ := json.Marshal(map[string]any{"Replace": over})
	os.WriteFile(filepath.Join(d, "overlay.json"), b, 0o644)
	tool = filepath.Join(d, "tool")
	c = exec.Command(gobin, "build", "-overlay", filepath.Join(d, "overlay.json"), "-o", tool, module)
	c.Dir, c.Env = hd, env
	if o, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("go build: %v: %s", err, o)
	}
	return nil
}

var base struct {
	once sync.Once
	c    *ref.Common
	p    *ref.Proof
}

// files writes a plonky2 circuit and proof with the given public inputs; the
// statement holds unless off.
func files(t *chk.T, dir string, pis []uint64, off uint64) {
	base.once.Do(func() {
		ci := prover.Build(e2e.Small(), 7)
		base.c, base.p = ci.C, ci.Prove(nil)
	})
	p := base.p.Clone()
	p.PIs = nil
	var s, x fr.Element
	for i, v := range pis {
		x.SetUint64(v)
		p.PIs = append(p.PIs, x)
		x.Square(&x)
		var k fr.Element
		k.SetUint64(uint64(i + 1))
		x.Mul(&x, &k)
		s.Add(&s, &x)
	}
	k := fr.NewElement(off)
	s.Add(&s, &k)
	p.Pow = s
	c := *base.c
	c.NumPI = len(pis)
	if err := adapt.Write(dir, &c, p); err != nil {
		panic(err)
	}
}

func inputs(t *chk.T, n int) []uint64 {
	o := []uint64{}
	for i := 0; i < n; i++ {
		o = append(o, uint64(t.R.Intn(1<<26)))
	}
	return o
}

type outcome struct {
	code int
	out  string
}

// call runs the tool.
func call(t *chk.T, d string, a ...string) outcome {
	c := exec.Command(tool, a...)
	c.Dir = d
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOGC=") && !strings.HasPrefix(e, "GOMEMLIMIT=") {
			c.Env = append(c.Env, e)
		}
	}
	// there is no network; be quick to notice
	c.Env = append(c.Env, "HTTP_PROXY=http://127.0.0.1:1", "HTTPS_PROXY=http://127.0.0.1:1", "http_proxy=http://127.0.0.1:1", "https_proxy=http://127.0.0.1:1")
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	k := time.AfterFunc(10*time.Minute, func() { c.Process.Kill() })
	defer k.Stop()
	c.Run()
	t.C.Stat("runs", 1)
	t.C.Stat(fmt.Sprintf("exit_status_%d", c.ProcessState.ExitCode()), 1)
	for _, f := range artefacts {
		if has(d, f) {
			t.C.Stat("with_file_"+f, 1)
		}
	}
	return outcome{c.ProcessState.ExitCode(), b.String()}
}

func tail(s string) string {
	if len(s) > 500 {
		s = s[len(s)-500:]
	}
	return s
}

func has(d, f string) bool {
	_, err := os.Stat(filepath.Join(d, f))
	return err == nil
}

func load(d, f string, x io.ReaderFrom) error {
	h, err := os.Open(filepath.Join(d, f))
	if err != nil {
		return err
	}
	defer h.Close()
	n, err := x.ReadFrom(h)
	if err != nil {
		return fmt.Errorf("%s: %v", f, err)
	}
	if st, _ := h.Stat(); st.Size() != n {
		return fmt.Errorf("%s: %d of %d bytes are its contents", f, n, st.Size())
	}
	return nil
}

var artefacts = []string{"proving.key", "verifying.key", "proof.sol", "witness", "proof.proof"}

// compile compiles the statement as the tool does.
func compile(ps string, pis []uint64, off uint64) (constraint.ConstraintSystem, *small) {
	pow := new(big.Int)
	c := &small{}
	for i, v := range pis {
		c.PublicInputs = append(c.PublicInputs, gl.NewVariable(v))
		x := new(big.Int).SetUint64(v)
		x.Mul(x, x).Mul(x, big.NewInt(int64(i+1)))
		pow.Add(pow, x)
	}
	c.Pow = pow.Add(pow, new(big.Int).SetUint64(off))
	nb := frontend.NewBuilder(r1cs.NewBuilder)
	if ps == "plonk" {
		nb = scs.NewBuilder
	}
	cs, err := frontend.Compile(ecc.BN254.ScalarField(), nb, &small{PublicInputs: append([]gl.Variable(nil), c.PublicInputs...), Pow: c.Pow})
	if err != nil {
		panic(err)
	}
	return cs, c
}

// judge looks at what a successful run left behind; "" if all is well.
func judge(d, ps string, dummy, save bool, pis []uint64, o outcome) string {
	if o.code != 0 {
		return fmt.Sprintf("failed with status %d: %s", o.code, tail(o.out))
	}
	verified := ps == "plonk" || !dummy
	cs, asg := compile(ps, pis, 0)
	if save {
		for _, f := range artefacts {
			if !verified && (f == "verifying.key" || f == "proof.sol") {
				continue
			}
			if !has(d, f) {
				return "no file " + f
			}
		}
		w, _ := witness.New(ecc.BN254.ScalarField())
		if err := load(d, "witness", w); err != nil {
			return err.Error()
		}
		want, err := frontend.NewWitness(asg, ecc.BN254.ScalarField())
		if err != nil {
			panic(err)
		}
		a, _ := w.MarshalBinary()
		b, _ := want.MarshalBinary()
		if !bytes.Equal(a, b) {
			return fmt.Sprintf("witness %v, public inputs %v", w.Vector(), pis)
		}
		pub, _ := want.Public()
		if ps == "groth16" {
			pf, pk, vk := groth16.NewProof(ecc.BN254), groth16.NewProvingKey(ecc.BN254), groth16.NewVerifyingKey(ecc.BN254)
			if err := load(d, "proof.proof", pf); err != nil {
				return err.Error()
			}
			if err := load(d, "proving.key", pk); err != nil {
				return err.Error()
			}
			if verified {
				if err := load(d, "verifying.key", vk); err != nil {
					return err.Error()
				}
				if err := groth16.Verify(pf, vk, pub); err != nil {
					return "the proof file does not verify: " + err.Error()
				}
				p2, err := groth16.Prove(cs, pk, want)
				if err != nil {
					return "the proving key does not work: " + err.Error()
				}
				if err := groth16.Verify(p2, vk, pub); err != nil {
					return "a proof of the proving key does not verify: " + err.Error()
				}
				if m := contract(d, vk); m != "" {
					return m
				}
				x := pf.(*g16.Proof)
				for _, k := range []struct {
					name string
					v    interface{ String() string }
				}{{`a\[0\]`, &x.Ar.X}, {`a\[1\]`, &x.Ar.Y}, {`b\[0\]\[0\]`, &x.Bs.X.A1}, {`b\[0\]\[1\]`, &x.Bs.X.A0}, {`b\[1\]\[0\]`, &x.Bs.Y.A1}, {`b\[1\]\[1\]`, &x.Bs.Y.A0}, {`c\[0\]`, &x.Krs.X}, {`c\[1\]`, &x.Krs.Y}} {
					m := regexp.MustCompile(`(?m)^\s*` + k.name + `\D+(\d+)`).FindStringSubmatch(o.out)
					if m == nil || m[1] != k.v.String() {
						return fmt.Sprintf("printed %s as %v; the proof has %s", k.name, m, k.v.String())
					}
				}
			}
		} else {
			pf, pk, vk := plonk.NewProof(ecc.BN254), plonk.NewProvingKey(ecc.BN254), plonk.NewVerifyingKey(ecc.BN254)
			if err := load(d, "proof.proof", pf); err != nil {
				return err.Error()
			}
			if err := load(d, "proving.key", pk); err != nil {
				return err.Error()
			}
			if err := load(d, "verifying.key", vk); err != nil {
				return err.Error()
			}
			if err := plonk.Verify(pf, vk, pub); err != nil {
				return "the proof file does not verify: " + err.Error()
			}
			p2, err := plonk.Prove(cs, pk, want)
			if err != nil {
				return "the proving key does not work: " + err.Error()
			}
			if err := plonk.Verify(p2, vk, pub); err != nil {
				return "a proof of the proving key does not verify: " + err.Error()
			}
			if m := contract(d, vk); m != "" {
				return m
			}
			var b bytes.Buffer
			pf.WriteRawTo(&b)
			if !strings.Contains(o.out, fmt.Sprint(b.Bytes())) {
				return "the proof printed is not the one of the file"
			}
		}
	} else {
		for _, f := range artefacts {
			if has(d, f) {
				return "wrote " + f + " without being asked to"
			}
		}
	}
	return ""
}

func contract(d string, vk interface{ ExportSolidity(io.Writer) error }) string {
	var b bytes.Buffer
	if err := vk.ExportSolidity(&b); err != nil {
		panic(err)
	}
	f, err := os.ReadFile(filepath.Join(d, "proof.sol"))
	if err != nil {
		return err.Error()
	}
	if !bytes.Equal(f, b.Bytes()) {
		return "the contract is not the one of the verifying key"
	}
	return ""
}

func flags(ps string, dummy, save, prof bool) []string {
	return []string{"-plonky2-circuit", "it", "-proof-system", ps, fmt.Sprintf("-dummy=%v", dummy), fmt.Sprintf("-save=%v", save), fmt.Sprintf("-profile=%v", prof)}
}

// srs writes a test SRS of n points of which the verification key has another
// secret if bad.
func srs(d string, n int, bad bool) {
	s, err := bnkzg.NewSRS(uint64(n), big.NewInt(123456789))
	if err != nil {
		panic(err)
	}
	if bad {
		z, _ := bnkzg.NewSRS(4, big.NewInt(987654321))
		s.Vk = z.Vk
	}
	f, err := os.Create(filepath.Join(d, "srs_setup"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if _, err := s.WriteTo(f); err != nil {
		panic(err)
	}
}

const enough = 1 << 14

func run(c *chk.Check) {
	if err := build(); err != nil {
		panic(err)
	}
	n := 2
	if c.Thorough {
		n = 40
	}
	for _, ps := range []string{"groth16", "plonk"} {
		ps := ps
		for i := 0; i < 8*n; i++ {
			i := i
			c.Case(fmt.Sprintf("valid-%s-%d", ps, i), func(t *chk.T) {
				d := scratch()
				defer os.RemoveAll(d)
				dummy, save, prof := i&1 == 1, i&2 == 0, i&4 == 4
				pis := inputs(t, []int{1, 3, 4, 8, 2, 7, 5, 36}[(i/8*3+i)%8])
				files(t, filepath.Join(d, "testdata", "it"), pis, 0)
				// another circuit next to it
				files(t, filepath.Join(d, "testdata", "other"), inputs(t, len(pis)), 1)
				if ps == "plonk" && !dummy {
					srs(d, enough, false)
				}
				o := call(t, d, flags(ps, dummy, save, prof)...)
				if m := judge(d, ps, dummy, save, pis, o); m != "" {
					t.Fail("%s, dummy setup %v, saving %v, profile %v, %d public inputs: %s", ps, dummy, save, prof, len(pis), m)
					return
				}
				t.OK(fmt.Sprintf("valid:%s:%v:%v:%v:%d", ps, dummy, save, prof, len(pis)))
			})
		}
		for i := 0; i < 2*n; i++ {
			i := i
			for _, f := range faults {
				f := f
				c.Case(fmt.Sprintf("fault-%s-%s-%d", f, ps, i), func(t *chk.T) { fault(t, ps, f, i&1 == 1, i&2 == 0) })
			}
		}
		for i := 0; i < n; i++ {
			c.Case(fmt.Sprintf("history-%s-%d", ps, i), func(t *chk.T) { history(t, ps) })
		}
	}
	for i := 0; i < n; i++ {
		for _, f := range []string{"good", "none", "cut", "few", "other-secret", "empty", "garbage"} {
			f := f
			c.Case(fmt.Sprintf("srs-%s-%d", f, i), func(t *chk.T) { setup(t, f) })
		}
	}
}

var faults = []string{"statement", "no-proof", "no-key", "no-circuit", "no-directory", "bad-proof", "bad-key", "bad-circuit", "system", "name", "flag", "more-inputs"}

func fault(t *chk.T, ps, f string, dummy, save bool) {
	d := scratch()
	defer os.RemoveAll(d)
	pis := inputs(t, 1+t.R.Intn(6))
	td := filepath.Join(d, "testdata", "it")
	off := uint64(0)
	if f == "statement" {
		off = 1 + uint64(t.R.Intn(1000))
	}
	files(t, td, pis, off)
	files(t, filepath.Join(d, "testdata", "step"), pis, 0)
	if ps == "plonk" && !dummy {
		srs(d, enough, false)
	}
	a := flags(ps, dummy, save, t.R.Intn(2) == 0)
	name := map[string]string{"proof": "proof_with_public_inputs.json", "key": "verifier_only_circuit_data.json", "circuit": "common_circuit_data.json"}
	switch f {
	case "statement":
	case "no-proof", "no-key", "no-circuit":
		os.Remove(filepath.Join(td, name[f[3:]]))
	case "no-directory":
		a[1] = "missing"
	case "bad-proof", "bad-key", "bad-circuit":
		p := filepath.Join(td, name[f[4:]])
		b, _ := os.ReadFile(p)
		os.WriteFile(p, b[:1+t.R.Intn(len(b)-1)], 0o644)
	case "system":
		a[3] = []string{"", "Plonk", "groth", "marlin", "plonk ", "GROTH16"}[t.R.Intn(6)]
	case "name":
		a[1] = ""
	case "flag":
		a = append(a, "-nonsense")
	case "more-inputs": // a statement with an input the sum does not have
		files(t, td, append(append([]uint64(nil), pis...), 3), 0)
		b, _ := os.ReadFile(filepath.Join(td, name["proof"]))
		var m map[string]json.RawMessage
		json.Unmarshal(b, &m)
		x := append(append([]uint64(nil), pis...), 4)
		m["public_inputs"], _ = json.Marshal(x)
		b, _ = json.Marshal(m)
		os.WriteFile(filepath.Join(td, name["proof"]), b, 0o644)
	}
	o := call(t, d, a...)
	if o.code == 0 {
		t.Fail("%s, dummy setup %v, saving %v, fault %s: the tool ended successfully: %s", ps, dummy, save, f, tail(o.out))
		return
	}
	if has(d, "proof.proof") {
		t.Fail("%s, dummy setup %v, fault %s: a proof was written", ps, dummy, f)
		return
	}
	t.OK(fmt.Sprintf("fault:%s:%s:%v:%v", f, ps, dummy, save))
}

// setup: the real setup of PLONK uses the SRS of the directory.
func setup(t *chk.T, f string) {
	d := scratch()
	defer os.RemoveAll(d)
	pis := inputs(t, 1+t.R.Intn(6))
	files(t, filepath.Join(d, "testdata", "it"), pis, 0)
	p := filepath.Join(d, "srs_setup")
	srs(d, enough, f == "other-secret")
	b, _ := os.ReadFile(p)
	switch f {
	case "none":
		os.Remove(p)
	case "cut":
		os.WriteFile(p, b[:t.R.Intn(len(b))], 0o644)
	case "few":
		srs(d, 2+t.R.Intn(16), false)
	case "empty":
		os.WriteFile(p, nil, 0o644)
	case "garbage":
		t.R.Read(b[:1<<10])
		os.WriteFile(p, b, 0o644)
	}
	before, _ := os.ReadFile(p)
	o := call(t, d, flags("plonk", false, true, false)...)
	if f == "good" {
		if m := judge(d, "plonk", false, true, pis, o); m != "" {
			t.Fail("PLONK with a given SRS: %s", m)
			return
		}
		// the keys are those of the given SRS, not of another one
		pk, vk := plonk.NewProvingKey(ecc.BN254), plonk.NewVerifyingKey(ecc.BN254)
		load(d, "proving.key", pk)
		load(d, "verifying.key", vk)
		z, _ := bnkzg.NewSRS(4, big.NewInt(123456789))
		var e bytes.Buffer
		vk.WriteTo(&e)
		q := z.Vk.G2[1].Bytes()
		if !bytes.Contains(e.Bytes(), q[:]) {
			t.Fail("PLONK with a given SRS: the verifying key is for another one")
			return
		}
	} else if o.code == 0 {
		t.Fail("PLONK with an SRS that is %s: the tool ended successfully: %s", f, tail(o.out))
		return
	}
	after, _ := os.ReadFile(p)
	if f != "none" && !bytes.Equal(before, after) {
		t.Fail("PLONK with an SRS that is %s: the tool replaced it", f)
		return
	}
	if f == "none" && has(d, "srs_setup") {
		t.Fail("there is an SRS although nothing could be fetched")
		return
	}
	t.OK("srs:" + f)
}

// history: several runs in one directory.
func history(t *chk.T, ps string) {
	d := scratch()
	defer os.RemoveAll(d)
	if ps == "plonk" {
		srs(d, enough, false)
	}
	key := ""
	for s := 0; s < 3; s++ {
		pis := inputs(t, 1+t.R.Intn(9))
		off := uint64(0)
		if t.R.Intn(3) == 0 {
			off = 5
		}
		files(t, filepath.Join(d, "testdata", "it"), pis, off)
		dummy := ps == "plonk" && t.R.Intn(2) == 0
		o := call(t, d, flags(ps, dummy, true, t.R.Intn(2) == 0)...)
		key += fmt.Sprint(off == 0, dummy, " ")
		if off != 0 {
			if o.code == 0 {
				t.Fail("%s, runs %s: an invalid statement was proved: %s", ps, key, tail(o.out))
				return
			}
			continue
		}
		if m := judge(d, ps, dummy, true, pis, o); m != "" {
			t.Fail("%s, runs %s: %s", ps, key, m)
			return
		}
	}
	t.OK("history:" + ps + ":" + key)
}
