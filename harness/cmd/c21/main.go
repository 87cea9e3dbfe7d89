// C21: what does not have the shape of the circuit is refused, whatever else
// about it is consistent, and nothing of a proof is left out.
package main

import (
	"fmt"
	"strings"

	"vharness/adapt"
	"vharness/chk"
	"vharness/e2e"
	"vharness/prover"
	"vharness/ref"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
)

func main() {
	chk.Main(chk.Opt{ID: "C21", Level: "exploration",
		Rule:        "one evaluation = one run of the real verifier on a proof, public inputs, key or description of which one list (or two compensating ones) has another length, with an honest and with a total prover, which must be refused or unsatisfiable; 'crafted' ones were made by a dishonest prover so that every other check (transcript, identity, authentication, folding) holds, as confirmed by the lenient reference verifier; or on a proof of the right shape with one value changed; distinct = list x change x circuit",
		Assumptions: []string{"surplus entries that plonky2 proofs do not have are judged by the lists of the circuit description"},
		Need:        []string{"crafted:", "length:", "description:", "part:", "valid:", "unsupported:", "lenient:ok"}}, run)
}

var modes = []string{"native", "native", "native", "bits"}

// refuse: both provers fail.
func refuse(t *chk.T, c *ref.Common, p *ref.Proof, cd *types.CommonCircuitData, key, what string) {
	for _, total := range []bool{false, true} {
		res, _ := e2e.Run(c, p, e2e.Opt{Mode: "native", Total: total, Common: cd})
		if res.Accepted {
			t.Fail("%s [total prover %v]: accepted; %s", what, total, e2e.Key(c))
			return
		}
		if res.Panic != "" && !total {
			t.C.Stat("refused", 1)
		}
	}
	t.OK(key)
}

func accept(t *chk.T, c *ref.Common, p *ref.Proof, mode string) bool {
	e2e.Must(c, p)
	res, _ := e2e.Run(c, p, e2e.Opt{Mode: mode})
	if !res.Accepted {
		t.Fail("a valid proof is refused [%s]: %s; %s", mode, res, e2e.Key(c))
		return false
	}
	t.OK("valid:" + e2e.Key(c))
	return true
}

func base(k int) prover.Params {
	p := e2e.Small()
	p.Gates = []ref.Gate{ref.NoopGate{}, ref.ArithmeticGate{2}, ref.ConstantGate{2}}
	p.PowBits = 2
	switch k % 5 {
	case 0: // one step with a path
		p.DegreeBits, p.RateBits, p.Arity, p.Queries = 6, 3, []int{4}, 2
	case 1: // two steps
		p.DegreeBits, p.RateBits, p.Arity, p.Queries = 9, 3, []int{4, 4}, 1
		p.Gates = p.Gates[:2]
	case 2: // no step
		p.DegreeBits, p.RateBits, p.Arity, p.Queries = 3, 3, nil, 3
	case 3:
		p.DegreeBits, p.RateBits, p.Arity, p.Queries = 6, 3, []int{4}, 3
		p.NumChallenges = 1
		p.NumWires, p.NumRouted = 14, 12
	case 4: // no folding of a larger degree, several challenges
		p.DegreeBits, p.RateBits, p.Arity, p.Queries = 4, 4, []int{4}, 2
		p.NumChallenges = 3
	}
	return p
}

func run(c *chk.Check) {
	f := 1
	if c.Thorough {
		f = 10
	}
	for _, nm := range crafts {
		for k := 0; k < 15*f; k++ {
			c.Case(fmt.Sprintf("crafted/%s/%d", nm, k), func(t *chk.T) { crafted(t, nm, k) })
		}
	}
	for k := 0; k < 5*f; k++ {
		for part := 0; part < 4; part++ {
			c.Case(fmt.Sprintf("length/%d/%d", k, part), func(t *chk.T) { lengths(t, k, part) })
		}
		c.Case(fmt.Sprintf("description/%d", k), func(t *chk.T) { descriptions(t, k) })
		c.Case(fmt.Sprintf("unsupported/%d", k), func(t *chk.T) { unsupported(t, k) })
	}
	for k := 0; k < f; k++ {
		for part := 0; part < 16; part++ {
			c.Case(fmt.Sprintf("part/%d/%d", k, part), func(t *chk.T) { parts(t, k, part, 16) })
		}
	}
}

// ---- proofs that are consistent but for their shape

var crafts = []string{"pis+1", "pis-1", "pis0", "pisx2", "cap", "zsnext", "quotients", "commitcaps", "final", "finalx2", "final-1", "rounds", "trees", "leaf", "pathlong", "pathshort", "steps", "evals"}

func rnd(t *chk.T) (e fr.Element) {
	b := make([]byte, 40)
	t.R.Read(b)
	e.SetBytes(b)
	return
}

func rndLimb(t *chk.T) (e fr.Element) {
	e.SetUint64(t.R.Uint64() % ref.P)
	return
}

func crafted(t *chk.T, what string, k int) {
	ps := base(k)
	ci := prover.Build(ps, t.R.Int63())
	c := ci.C
	lde := c.LdeBits()
	ch := &prover.Cheat{Rng: t.R}
	caps := []string{"const", "wires", "zs", "quot"}
	// the queries that are malformed
	bad := make([]bool, c.NumQueries)
	all := t.R.Intn(3) == 0
	for i := range bad {
		bad[i] = all || t.R.Intn(2) == 0
	}
	one := t.R.Intn(c.NumQueries)
	bad[one] = true
	if !all && k%2 == 0 {
		for i := range bad {
			bad[i] = i == len(bad)-1
		}
	}
	// the tree: an initial one or a step
	at, step := caps[t.R.Intn(4)], 0
	if len(c.Arity) > 0 && (what == "evals" || t.R.Intn(2) == 0) {
		at, step = "commit", t.R.Intn(len(c.Arity))
	}
	if what == "evals" && len(c.Arity) == 0 {
		return
	}
	idxBits := lde
	shift := 0
	if at == "commit" {
		for s := 0; s <= step; s++ {
			shift += c.Arity[s]
			idxBits -= c.Arity[s]
		}
	}
	post := func(p *ref.Proof) {}
	mine := func(n string, s int) bool { return n == at && (n != "commit" || s == step) }
	tree := func(p *ref.Proof, q int) *[]fr.Element {
		if at == "commit" {
			return &p.Rounds[q].Steps[step].Path
		}
		for i, n := range caps {
			if n == at {
				return &p.Rounds[q].Init[i].Path
			}
		}
		return nil
	}
	leafSel := func(idx uint64) bool { return idx>>uint(shift)&1 == 1 }
	capSel := func(idx uint64) bool { return idx>>uint(lde-4)&1 == 1 }
	want := func(sel func(uint64) bool) {
		ch.IdxOK = func(idx []uint64) bool {
			for i, x := range idx {
				if sel(x) != bad[i] {
					return false
				}
			}
			return true
		}
	}
	desc := at
	switch what {
	case "pis+1":
		ch.PIs = append(append([]uint64{}, ci.PIs...), t.R.Uint64()%ref.P)
		if k%2 == 1 {
			ch.PIs[len(ch.PIs)-1] = 0
		}
	case "pis-1":
		ch.PIs = append([]uint64{}, ci.PIs[:len(ci.PIs)-1]...)
	case "pis0":
		ch.PIs = []uint64{}
	case "pisx2":
		ch.PIs = append(append([]uint64{}, ci.PIs...), ci.PIs...)
	case "cap":
		if at == "commit" && k%2 == 0 {
			at = caps[t.R.Intn(4)]
		}
		desc = at
		n := []int{1, 16, 2, 48}[t.R.Intn(4)]
		ch.CapList = func(name string, s int, cp []fr.Element) []fr.Element {
			if mine(name, s) {
				for i := 0; i < n; i++ {
					cp = append(cp, rnd(t))
				}
			}
			return cp
		}
	case "zsnext":
		desc = ""
		ch.Open = func(p *ref.Proof) { p.ZsNext = append(p.ZsNext, make([]ref.V2, 1+k%3)...) }
	case "quotients":
		desc = ""
		ch.Open = func(p *ref.Proof) {
			p.Quotients = append(p.Quotients, make([]ref.V2, []int{1, c.QDF, c.QDF * c.NumChallenges}[k%3])...)
		}
	case "commitcaps":
		desc = ""
		for i := 0; i < 1+k%2; i++ {
			var cp []fr.Element
			for j := 0; j < 16; j++ {
				cp = append(cp, rnd(t))
			}
			ch.ExtraCaps = append(ch.ExtraCaps, cp)
		}
	case "final":
		desc = ""
		ch.Final = func(p *ref.Proof) { p.Final = append(p.Final, make([]ref.V2, 1+k%2)...) }
	case "final-1": // without folding the last coefficient is always zero
		desc = ""
		if len(c.Arity) > 0 {
			return
		}
		ch.Final = func(p *ref.Proof) {
			last := p.Final[len(p.Final)-1]
			if !last[0].IsZero() || !last[1].IsZero() {
				panic("not zero")
			}
			p.Final = p.Final[:len(p.Final)-1]
		}
	case "finalx2":
		desc = ""
		ch.Final = func(p *ref.Proof) { p.Final = append(p.Final, make([]ref.V2, len(p.Final))...) }
	case "rounds":
		desc = ""
		post = func(p *ref.Proof) {
			for i := 0; i < 1+k%3; i++ {
				p.Rounds = append(p.Rounds, p.Rounds[t.R.Intn(len(p.Rounds))])
			}
		}
	case "trees":
		desc = ""
		post = func(p *ref.Proof) {
			for q := range p.Rounds {
				if bad[q] {
					p.Rounds[q].Init = append(p.Rounds[q].Init, p.Rounds[q].Init[t.R.Intn(4)])
				}
			}
		}
	case "steps":
		desc = ""
		post = func(p *ref.Proof) {
			for q := range p.Rounds {
				if !bad[q] {
					continue
				}
				st := ref.Step{Evals: make([]ref.V2, 16), Path: []fr.Element{rnd(t)}}
				if n := len(p.Rounds[q].Steps); n > 0 {
					st = p.Rounds[q].Steps[n-1]
				}
				p.Rounds[q].Steps = append(p.Rounds[q].Steps, st)
			}
		}
	case "leaf":
		if at == "commit" {
			at = caps[t.R.Intn(4)]
			shift = 0
		}
		desc = at
		n := 1 + t.R.Intn(4)
		zero := t.R.Intn(2) == 0
		ch.Leaf = func(name string, s, i int, l []fr.Element) []fr.Element {
			if mine(name, s) && i&1 == 1 {
				for j := 0; j < n; j++ {
					x := rndLimb(t)
					if zero {
						x.SetZero()
					}
					l = append(l, x)
				}
			}
			return l
		}
		want(leafSel)
	case "evals":
		ch.Leaf = func(name string, s, i int, l []fr.Element) []fr.Element {
			if mine(name, s) && i&1 == 1 {
				l = append(l, rndLimb(t), rndLimb(t))
			}
			return l
		}
		want(leafSel)
	case "pathlong":
		sib := rnd(t)
		ch.CapList = func(name string, s int, cp []fr.Element) []fr.Element {
			if mine(name, s) {
				for i := 1; i < len(cp); i += 2 {
					cp[i] = ref.BNTwoToOne(sib, cp[i])
				}
			}
			return cp
		}
		want(capSel)
		post = func(p *ref.Proof) {
			for q := range p.Rounds {
				if bad[q] {
					l := tree(p, q)
					*l = append(*l, sib)
				}
			}
		}
	case "pathshort":
		if idxBits <= 4 {
			return
		}
		side := t.R.Intn(2)
		var leaves [][]fr.Element
		ch.Leaf = func(name string, s, i int, l []fr.Element) []fr.Element {
			if mine(name, s) {
				leaves = append(leaves, l)
			}
			return l
		}
		ch.CapList = func(name string, s int, cp []fr.Element) []fr.Element {
			if mine(name, s) {
				cur := make([]fr.Element, len(leaves))
				for i := range cur {
					cur[i] = ref.BNHashOrNoop(leaves[i])
				}
				for len(cur) > 32 {
					nx := make([]fr.Element, len(cur)/2)
					for i := range nx {
						nx[i] = ref.BNTwoToOne(cur[2*i], cur[2*i+1])
					}
					cur = nx
				}
				for i := 1; i < 16; i += 2 {
					cp[i] = cur[2*i+side]
				}
			}
			return cp
		}
		ch.IdxOK = func(idx []uint64) bool {
			for i, x := range idx {
				if capSel(x) != bad[i] || bad[i] && int(x>>uint(lde-5)&1) != side {
					return false
				}
			}
			return true
		}
		post = func(p *ref.Proof) {
			for q := range p.Rounds {
				if bad[q] {
					l := tree(p, q)
					*l = (*l)[:len(*l)-1]
				}
			}
		}
	}
	p := ci.Prove(ch)
	post(p)
	if ref.Shape(c, p) == "" {
		panic("the crafted proof has the right shape: " + what)
	}
	if f := ref.Lenient(c, p); len(f) == 0 {
		t.OK("lenient:ok:" + what)
	} else if what != "pis0" || c.NumPI > 0 {
		panic(fmt.Sprintf("crafted %s %s is not consistent: %v", what, desc, f))
	}
	refuse(t, c, p, nil, fmt.Sprintf("crafted:%s:%s:%v:%d", what, desc, all, k%5), fmt.Sprintf("malformed proof, otherwise consistent (%s %s, malformed queries %v)", what, desc, bad))
}

// ---- other lengths of every list

type list struct {
	name string
	n    int
	set  func(p *ref.Proof, n int) // cut or extend
}

func resize[T any](l []T, n int) []T {
	o := append([]T(nil), l...)
	for len(o) < n {
		if len(o) > 0 {
			o = append(o, o[len(o)-1])
		} else {
			var z T
			o = append(o, z)
		}
	}
	return o[:n]
}

func lists(p *ref.Proof) (o []list) {
	add := func(name string, n int, set func(p *ref.Proof, n int)) { o = append(o, list{name, n, set}) }
	add("pis", len(p.PIs), func(p *ref.Proof, n int) { p.PIs = resize(p.PIs, n) })
	add("wirescap", 16, func(p *ref.Proof, n int) { p.WiresCap = resize(p.WiresCap, n) })
	add("zscap", 16, func(p *ref.Proof, n int) { p.ZsCap = resize(p.ZsCap, n) })
	add("quotcap", 16, func(p *ref.Proof, n int) { p.QuotCap = resize(p.QuotCap, n) })
	add("constcap", 16, func(p *ref.Proof, n int) { p.ConstCap = resize(p.ConstCap, n) })
	for i, nm := range []string{"constants", "sigmas", "wires", "zs", "partial", "quotients", "zsnext"} {
		add(nm, len(*p.Lists()[i]), func(p *ref.Proof, n int) { l := p.Lists()[i]; *l = resize(*l, n) })
	}
	add("commitcaps", len(p.CommitCaps), func(p *ref.Proof, n int) { p.CommitCaps = resize(p.CommitCaps, n) })
	for i := range p.CommitCaps {
		add("commitcap", 16, func(p *ref.Proof, n int) { p.CommitCaps[i] = resize(p.CommitCaps[i], n) })
	}
	add("final", len(p.Final), func(p *ref.Proof, n int) { p.Final = resize(p.Final, n) })
	add("rounds", len(p.Rounds), func(p *ref.Proof, n int) { p.Rounds = resize(p.Rounds, n) })
	for q := range p.Rounds {
		add("trees", 4, func(p *ref.Proof, n int) { p.Rounds[q].Init = resize(p.Rounds[q].Init, n) })
		add("steps", len(p.Rounds[q].Steps), func(p *ref.Proof, n int) { p.Rounds[q].Steps = resize(p.Rounds[q].Steps, n) })
		for j := range p.Rounds[q].Init {
			add(fmt.Sprintf("leaf%d", j), len(p.Rounds[q].Init[j].Leaf), func(p *ref.Proof, n int) { p.Rounds[q].Init[j].Leaf = resize(p.Rounds[q].Init[j].Leaf, n) })
			add(fmt.Sprintf("initpath%d", j), len(p.Rounds[q].Init[j].Path), func(p *ref.Proof, n int) { p.Rounds[q].Init[j].Path = resize(p.Rounds[q].Init[j].Path, n) })
		}
		for j := range p.Rounds[q].Steps {
			add("evals", 16, func(p *ref.Proof, n int) { p.Rounds[q].Steps[j].Evals = resize(p.Rounds[q].Steps[j].Evals, n) })
			add("steppath", len(p.Rounds[q].Steps[j].Path), func(p *ref.Proof, n int) { p.Rounds[q].Steps[j].Path = resize(p.Rounds[q].Steps[j].Path, n) })
		}
	}
	return
}

func lengths(t *chk.T, k, part int) {
	ps := base(k)
	if k%2 == 0 {
		ps.Gates = append(ps.Gates, ref.PublicInputGate{})
	}
	ci := prover.Build(ps, t.R.Int63())
	c := ci.C
	p := ci.Prove(&prover.Cheat{Rng: t.R})
	if part == 0 && !accept(t, c, p, "native") {
		return
	}
	ls := lists(p)
	for i, l := range ls {
		if i%4 != part {
			continue
		}
		for j, n := range []int{l.n + 1, l.n - 1, 0, 2 * l.n, l.n + 16} {
			if n < 0 || n == l.n {
				continue
			}
			if !t.C.Thorough && j >= 2 && t.R.Intn(4) > 0 || !t.C.Thorough && k > 2 && t.R.Intn(2) == 0 {
				continue
			}
			q := p.Clone()
			l.set(q, n)
			if ref.Shape(c, q) == "" {
				panic("the changed proof has the right shape: " + l.name)
			}
			refuse(t, c, q, nil, fmt.Sprintf("length:%s:%d", l.name, j), fmt.Sprintf("%s (list %d) of length %d instead of %d", l.name, i, n, l.n))
		}
		// two lists of which one is longer and the other shorter
		o := ls[t.R.Intn(len(ls))]
		if o.name != l.name && o.n > 0 {
			q := p.Clone()
			func() {
				defer func() { recover() }() // a list within a list that is gone
				o.set(q, o.n-1)
				l.set(q, l.n+1)
			}()
			if ref.Shape(c, q) != "" {
				refuse(t, c, q, nil, fmt.Sprintf("length:%s:pair", l.name), fmt.Sprintf("%s one longer, %s one shorter", l.name, o.name))
			}
		}
	}
	// an element moved to the next list of the transcript
	if part == 1 {
		for i := 0; i < 6; i++ {
			q := p.Clone()
			a, b := q.Lists()[i], q.Lists()[i+1]
			if len(*a) > 0 {
				x := (*a)[len(*a)-1]
				*a = (*a)[:len(*a)-1]
				*b = append([]ref.V2{x}, *b...)
				refuse(t, c, q, nil, fmt.Sprintf("length:move%d", i), "an opening moved to the next list")
			}
			q = p.Clone()
			a, b = q.Lists()[i], q.Lists()[i+1]
			if len(*b) > 0 {
				x := (*b)[0]
				*b = (*b)[1:]
				*a = append(*a, x)
				refuse(t, c, q, nil, fmt.Sprintf("length:moveback%d", i), "an opening moved to the previous list")
			}
		}
	}
}

// ---- descriptions the proof does not fit

func descriptions(t *chk.T, k int) {
	ps := base(k)
	ci := prover.Build(ps, t.R.Int63())
	c := ci.C
	p := ci.Prove(&prover.Cheat{Rng: t.R})
	if !accept(t, c, p, modes[k%4]) {
		return
	}
	type field struct {
		name string
		at   func(d *types.CommonCircuitData) *uint64
	}
	fs := []field{
		{"public inputs", func(d *types.CommonCircuitData) *uint64 { return &d.NumPublicInputs }},
		{"wires", func(d *types.CommonCircuitData) *uint64 { return &d.Config.NumWires }},
		{"routed wires", func(d *types.CommonCircuitData) *uint64 { return &d.Config.NumRoutedWires }},
		{"constants", func(d *types.CommonCircuitData) *uint64 { return &d.NumConstants }},
		{"challenges", func(d *types.CommonCircuitData) *uint64 { return &d.Config.NumChallenges }},
		{"partial products", func(d *types.CommonCircuitData) *uint64 { return &d.NumPartialProducts }},
		{"quotient degree", func(d *types.CommonCircuitData) *uint64 { return &d.QuotientDegreeFactor }},
		{"fri degree", func(d *types.CommonCircuitData) *uint64 { return &d.FriParams.DegreeBits }},
	}
	for _, f := range fs {
		for j, dlt := range []int64{1, -1, 4, -4, 16} {
			d := adapt.Common(c)
			v := f.at(&d)
			if int64(*v)+dlt < 0 {
				continue
			}
			*v = uint64(int64(*v) + dlt)
			refuse(t, c, p, &d, fmt.Sprintf("description:%s:%d", f.name, j), fmt.Sprintf("a description with %s changed by %d", f.name, dlt))
		}
	}
	// the FRI parameters appear twice; the proof fits neither when both change
	for _, f := range []struct {
		name string
		set  func(x *types.FriConfig, n int64)
	}{
		{"rate", func(x *types.FriConfig, n int64) { x.RateBits = uint64(int64(x.RateBits) + n) }},
		{"cap height", func(x *types.FriConfig, n int64) { x.CapHeight = uint64(int64(x.CapHeight) + n) }},
		{"queries", func(x *types.FriConfig, n int64) { x.NumQueryRounds = uint64(int64(x.NumQueryRounds) + n) }},
	} {
		for j, n := range []int64{1, -1, 2} {
			if f.name == "queries" && c.NumQueries+int(n) < 1 {
				continue
			}
			d := adapt.Common(c)
			f.set(&d.FriParams.Config, n)
			f.set(&d.Config.FriConfig, n)
			refuse(t, c, p, &d, fmt.Sprintf("description:%s:%d", f.name, j), fmt.Sprintf("a description with the FRI %s changed by %d", f.name, n))
		}
	}
	for j, ar := range [][]uint64{nil, {4}, {4, 4}, {4, 4, 4}, {3}, {5}, {4, 3}, {2, 2}, {8}, {1, 1, 1, 1}} {
		d := adapt.Common(c)
		if fmt.Sprint(ar) == fmt.Sprint(d.FriParams.ReductionArityBits) || len(ar) == len(d.FriParams.ReductionArityBits) && len(ar) == 0 {
			continue
		}
		d.FriParams.ReductionArityBits = ar
		refuse(t, c, p, &d, fmt.Sprintf("description:arity:%d", j), fmt.Sprintf("a description with folding %v instead of %v", ar, c.Arity))
	}
}

// ---- descriptions that are not supported, with proofs that do fit them

func unsupported(t *chk.T, k int) {
	ps := base(k)
	ci := prover.Build(ps, t.R.Int63())
	c := ci.C
	p := ci.Prove(&prover.Cheat{Rng: t.R})
	for j, id := range []string{"LookupGate {num_slots: 40, lut_hash: [1, 2]}", "LookupTableGate { num_slots: 26 }", "", "NoopGate ", "MyGate", "ComparisonGate { num_bits: 32, num_chunks: 16, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>", "U32ArithmeticGate { num_ops: 3, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }", "SplitGate", "AssertLessThanGate"} {
		if strings.TrimSpace(id) == "NoopGate" {
			continue
		}
		d := adapt.Common(c)
		d.GateIds = append([]string(nil), d.GateIds...)
		d.GateIds[j%len(d.GateIds)] = id
		refuse(t, c, p, &d, fmt.Sprintf("unsupported:gate:%d", j), "a description with gate "+id)
		d = adapt.Common(c)
		d.GateIds = append(append([]string(nil), d.GateIds...), id)
		refuse(t, c, p, &d, fmt.Sprintf("unsupported:gate added:%d", j), "a description with the further gate "+id)
	}
	// gates without selectors
	d := adapt.Common(c)
	d.GateIds = nil
	refuse(t, c, p, &d, "unsupported:no gates", "a description without gates")
	d = adapt.Common(c)
	d.GateIds = d.GateIds[1:]
	refuse(t, c, p, &d, "unsupported:first gate missing", "a description without the first gate")
	d = adapt.Common(c)
	d.KIs = d.KIs[:len(d.KIs)-1]
	refuse(t, c, p, &d, "unsupported:kis", "a description without the last coset shift")
	// folding by other arities, with proofs made for them
	for j, ar := range [][]int{{3}, {2}, {1}, {2, 2}, {3, 1}, {5}} {
		if sum(ar) > ps.DegreeBits || ps.DegreeBits+ps.RateBits-sum(ar) < 4 {
			continue
		}
		qs := ps
		qs.Arity = ar
		x := prover.Build(qs, t.R.Int63())
		q := x.Prove(&prover.Cheat{Rng: t.R})
		e2e.Must(x.C, q)
		res, _ := e2e.Run(x.C, q, e2e.Opt{Mode: "native"})
		// supporting them would be fine; accepting a broken one would not
		if !res.Accepted {
			t.OK(fmt.Sprintf("unsupported:arity:%d", j))
			continue
		}
		one := fr.One()
		s := &q.Rounds[0].Steps[0]
		s.Evals[t.R.Intn(len(s.Evals))][0].Add(&s.Evals[0][0], &one)
		refuse(t, x.C, q, nil, fmt.Sprintf("unsupported:arity:%d", j), "a broken folding step of another arity")
	}
}

func sum(x []int) (s int) {
	for _, y := range x {
		s += y
	}
	return
}

// ---- every value of the query rounds and the key counts

func parts(t *chk.T, k, part, of int) {
	ps := base(k)
	ps.Queries = 1
	ci := prover.Build(ps, 5+int64(k))
	c := ci.C
	p := ci.Prove(nil)
	if part == 0 && !accept(t, c, p, "native") {
		return
	}
	n := 0
	one := func(name string, set func(q *ref.Proof)) {
		n++
		if n%of != part {
			return
		}
		q := p.Clone()
		set(q)
		if len(ref.Verify(c, q)) == 0 {
			panic("a changed proof verifies: " + name)
		}
		refuse(t, c, q, nil, "part:"+name, "a proof with "+name+" changed")
	}
	i := 0
	p.GLs(func(name string, v *ref.V) {
		j := i
		i++
		one(fmt.Sprintf("%s %d", name, j), func(q *ref.Proof) {
			l := 0
			q.GLs(func(_ string, v *ref.V) {
				if l == j {
					x := rndLimb(t)
					for x.Equal(v) {
						x = rndLimb(t)
					}
					*v = x
				}
				l++
			})
		})
	})
	i = 0
	idx := ref.GetChallenges(c, p).Indices
	used := idx[0] & (1<<uint(c.LdeBits()) - 1) >> uint(c.LdeBits()-4)
	p.Hashes(func(name string, v *ref.Hash) {
		j := i
		i++
		// only the entries of the constants cap the queries select matter
		if name == "constcap" && !v.Equal(&p.ConstCap[used]) {
			return
		}
		one(fmt.Sprintf("%s %d", name, j), func(q *ref.Proof) {
			l := 0
			q.Hashes(func(_ string, v *ref.Hash) {
				if l == j {
					*v = rnd(t)
				}
				l++
			})
		})
	})
}
