package ref

// Challenger is the duplex sponge transcript of plonky2.
type Challenger struct {
	s       [12]uint64
	in, out []uint64
}

func (c *Challenger) Observe(xs ...uint64) {
	for _, x := range xs {
		c.out = nil
		c.in = append(c.in, x)
		if len(c.in) == 8 {
			c.duplex()
		}
	}
}

func (c *Challenger) duplex() {
	for i, x := range c.in {
		c.s[i] = x % P
	}
	c.in = nil
	Permute(&c.s)
	c.out = append([]uint64(nil), c.s[:8]...)
}

func (c *Challenger) ObserveBN(h Hash) { c.Observe(BNToVec(h)...) }
func (c *Challenger) ObserveExt(xs ...Ext) {
	for _, x := range xs {
		c.Observe(x[0], x[1])
	}
}
func (c *Challenger) ObserveCap(h []Hash) {
	for _, x := range h {
		c.ObserveBN(x)
	}
}

func (c *Challenger) Get() uint64 {
	if len(c.in) != 0 || len(c.out) == 0 {
		c.duplex()
	}
	x := c.out[len(c.out)-1]
	c.out = c.out[:len(c.out)-1]
	return x
}

func (c *Challenger) GetN(n int) []uint64 {
	o := make([]uint64, n)
	for i := range o {
		o[i] = c.Get()
	}
	return o
}

func (c *Challenger) GetExt() Ext {
	a := c.Get()
	b := c.Get()
	return Ext{a, b}
}

// Clone copies the state.
func (c *Challenger) Clone() *Challenger {
	d := *c
	d.in = append([]uint64(nil), c.in...)
	d.out = append([]uint64(nil), c.out...)
	return &d
}
