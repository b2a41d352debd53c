package main

import (
	"crypto/sha256"
	"encoding/binary"
	"go/types"
	"math/big"
	"math/bits"

	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"golang.org/x/crypto/chacha20"
	"golang.org/x/crypto/chacha20poly1305"
)

// Cryptographic primitives: executed natively on concrete inputs, and
// uninterpreted functions (with a native meaning used to confirm
// counterexamples) on symbolic ones.

const secpPkg = "github.com/decred/dcrd/dcrec/secp256k1/v4."

var (
	secpP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	secpN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
)

// magicY marks a y coordinate of which only the parity is known.
const magicY = 0x2bad51

// words packs byte cells (big endian) into 64-bit expressions.
func (m *Machine) words(b []Value) []*Expr {
	var out []*Expr
	for i := 0; i < len(b); i += 8 {
		j := min(i+8, len(b))
		ps := make([]*Expr, 0, 8)
		for k := j - 1; k >= i; k-- {
			ps = append(ps, m.ex(b[k], 8))
		}
		w := m.ctx.Concat(ps)
		if w.w < 64 {
			w = m.ctx.ZExt(w, 64)
		}
		out = append(out, m.pinned(w))
	}
	return out
}

// pinned replaces an expression whose symbols have one value left on this path
// by its value.
func (m *Machine) pinned(e *Expr) *Expr {
	if e.isConst() || m.ctx.hasUF(e) {
		return e
	}
	rs := m.ctx.roots(e)
	mod := &Model{v: make(map[uint32]uint64, len(rs))}
	for _, r := range rs {
		x := m.ctx.byID(r)
		if x == nil || x.op != OSym {
			return e
		}
		d, ok := m.dom[r]
		if !ok {
			return e
		}
		one, v := 0, uint64(0)
		for i, b := range d {
			one += bits.OnesCount64(b)
			if b != 0 {
				v = uint64(64*i + bits.TrailingZeros64(b))
			}
		}
		if one != 1 {
			return e
		}
		mod.v[r] = v
	}
	return m.ctx.Const(e.w, newEval(mod).eval(e))
}

// wordBytes unpacks 64-bit words (big endian) into n byte cells.
func (m *Machine) wordBytes(ws []*Expr, n int) []Value {
	out := make([]Value, n)
	for i := range out {
		out[i] = m.ev(m.ctx.Extract(ws[i/8], uint(56-8*(i%8)), 8))
	}
	return out
}

func u64sToBytes(ws []uint64) []byte {
	b := make([]byte, 8*len(ws))
	for i, w := range ws {
		binary.BigEndian.PutUint64(b[8*i:], w)
	}
	return b
}

func bytesToU64s(b []byte) []uint64 {
	out := make([]uint64, (len(b)+7)/8)
	for i := range out {
		var t [8]byte
		n := copy(t[:], b[8*i:])
		v := binary.BigEndian.Uint64(t[:])
		if n < 8 {
			v >>= uint(8 * (8 - n))
		}
		out[i] = v
	}
	return out
}

// nativeBytes rebuilds n bytes from words made by words().
func nativeBytes(ws []uint64, n int) []byte {
	b := make([]byte, 0, n+8)
	for i := 0; i < len(ws); i++ {
		k := min(8, n-8*i)
		for j := k - 1; j >= 0; j-- {
			b = append(b, byte(ws[i]>>(8*uint(j))))
		}
	}
	return b
}

var w4 = []uint8{64, 64, 64, 64}

func constWords(ws []*Expr) ([]uint64, bool) {
	out := make([]uint64, len(ws))
	for i, w := range ws {
		if !w.isConst() {
			return nil, false
		}
		out[i] = w.k
	}
	return out, true
}

func (m *Machine) sha256(data []Value) []Value {
	if b, ok := concBytes(data); ok {
		h := sha256.Sum256(b)
		out := make([]Value, 32)
		for i := range out {
			out[i].n = uint64(h[i])
		}
		return out
	}
	n := len(data)
	args := append([]*Expr{m.ctx.Const(64, uint64(n))}, m.words(data)...)
	ps := m.ctx.UF("sha256", args, w4, true, func(a []uint64) []uint64 {
		h := sha256.Sum256(nativeBytes(a[1:], n))
		return bytesToU64s(h[:])
	})
	return m.wordBytes(ps, 32)
}

// ---- limbs ----

// limbWords packs limbs of the given bit width into four 64-bit words, most
// significant first.
func (m *Machine) limbWords(l []Value, bits uint8) []*Expr {
	c := m.ctx
	type piece struct {
		e  *Expr
		lo uint
		w  uint
	}
	out := make([]*Expr, 4)
	var acc [4][]*Expr
	pos := uint(0)
	for i, v := range l {
		e := m.ex(v, 32)
		w := uint(bits)
		if pos+w > 256 {
			w = 256 - pos
		}
		_ = i
		off := uint(0)
		for w > 0 {
			k := pos / 64
			take := min(w, 64-pos%64)
			acc[k] = append(acc[k], c.Extract(e, off, uint8(take)))
			pos += take
			off += take
			w -= take
		}
	}
	for k := range acc {
		out[3-k] = c.Concat(acc[k])
	}
	return out
}

// wordLimbs is the inverse of limbWords.
func (m *Machine) wordLimbs(ws []*Expr, bits uint8, n int) []Value {
	c := m.ctx
	out := make([]Value, n)
	pos := uint(0)
	for i := range out {
		w := uint(bits)
		if pos+w > 256 {
			w = 256 - pos
		}
		var ps []*Expr
		for w > 0 {
			k := pos / 64
			take := min(w, 64-pos%64)
			ps = append(ps, c.Extract(ws[3-k], pos%64, uint8(take)))
			pos += take
			w -= take
		}
		out[i] = m.ev(c.ZExt(c.Concat(ps), 32))
	}
	return out
}

func limbsBig(l []Value, bits uint) (*big.Int, bool) {
	r := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].r != nil {
			return nil, false
		}
		r.Lsh(r, bits)
		r.Add(r, new(big.Int).SetUint64(l[i].n&0xffffffff))
	}
	return r, true
}

func bigWords(b *big.Int) []uint64 {
	var buf [32]byte
	b.FillBytes(buf[:])
	return bytesToU64s(buf[:])
}

func wordsBig(ws []uint64) *big.Int { return new(big.Int).SetBytes(u64sToBytes(ws)) }

func (m *Machine) constExprs(ws []uint64) []*Expr {
	out := make([]*Expr, len(ws))
	for i, w := range ws {
		out[i] = m.ctx.Const(64, w)
	}
	return out
}

const fieldSize = 10 // cells of a FieldVal

func parityOnly(l []Value) bool { return l[1].r == nil && l[1].n == magicY }

func anySym(l []Value) bool {
	for _, v := range l {
		if v.r != nil {
			return true
		}
	}
	return false
}

// fieldCells reads the ten limbs behind a *FieldVal.
func fieldCells(m *Machine, p Value) []Value {
	if p.r == nil {
		m.nilDeref()
	}
	a := p.r.(*Agg)
	return append([]Value(nil), a.cells[p.n:p.n+fieldSize]...)
}

func (m *Machine) setCells(p Value, off int, vs []Value) {
	a := p.r.(*Agg)
	m.touch(a, int(p.n)+off, len(vs))
	copy(a.cells[int(p.n)+off:], vs)
}

func (m *Machine) setFieldBig(p Value, off int, b *big.Int) {
	m.setCells(p, off, m.wordLimbs(m.constExprs(bigWords(b)), 26, fieldSize))
}

// point reads an affine or Jacobian point natively.
type jac struct{ x, y, z *big.Int }

func (m *Machine) nativePoint(p Value) (secp256k1.JacobianPoint, bool) {
	var r secp256k1.JacobianPoint
	a := p.r.(*Agg)
	cs := a.cells[p.n : p.n+3*fieldSize]
	if anySym(cs) || parityOnly(cs[fieldSize:]) {
		return r, false
	}
	for i, f := range []*secp256k1.FieldVal{&r.X, &r.Y, &r.Z} {
		b, _ := limbsBig(cs[i*fieldSize:(i+1)*fieldSize], 26)
		b.Mod(b, secpP)
		var buf [32]byte
		b.FillBytes(buf[:])
		f.SetBytes(&buf)
	}
	return r, true
}

func fieldBig(f *secp256k1.FieldVal) *big.Int {
	g := *f
	g.Normalize()
	return new(big.Int).SetBytes(g.Bytes()[:])
}

func (m *Machine) setPoint(p Value, r *secp256k1.JacobianPoint) {
	m.setFieldBig(p, 0, fieldBig(&r.X))
	m.setFieldBig(p, fieldSize, fieldBig(&r.Y))
	m.setFieldBig(p, 2*fieldSize, fieldBig(&r.Z))
}

// symY builds the limbs of a y coordinate known by its parity (1-bit expr).
func (m *Machine) symY(par *Expr) []Value {
	y := make([]Value, fieldSize)
	y[0] = m.ev(m.ctx.ZExt(par, 32))
	y[1].n = magicY
	return y
}

func (m *Machine) parity(y []Value) *Expr { return m.ctx.Extract(m.ex(y[0], 32), 0, 1) }

// setSymPoint stores an affine point given by x words and parity.
func (m *Machine) setSymPoint(p Value, x []*Expr, par *Expr) {
	m.setCells(p, 0, m.wordLimbs(x, 26, fieldSize))
	m.setCells(p, fieldSize, m.symY(par))
	z := make([]Value, fieldSize)
	z[0].n = 1
	m.setCells(p, 2*fieldSize, z)
}

func nativeLift(x []uint64, odd bool) (*secp256k1.PublicKey, bool) {
	b := make([]byte, 33)
	b[0] = 2
	if odd {
		b[0] = 3
	}
	copy(b[1:], u64sToBytes(x))
	k, err := secp256k1.ParsePubKey(b)
	return k, err == nil
}

func (m *Machine) validX(ws []*Expr) *Expr {
	if k, ok := constWords(ws); ok {
		_, v := nativeLift(k, false)
		return m.ctx.Bool(v)
	}
	p := m.ctx.UF("secp.validx", ws, []uint8{8}, false, func(a []uint64) []uint64 {
		_, v := nativeLift(a, false)
		return []uint64{b2u(v)}
	})
	return m.ctx.Eq(p[0], m.ctx.Const(8, 1))
}

// geConst builds the condition words >= constant.
func (m *Machine) geConst(ws []*Expr, k *big.Int) *Expr {
	kw := bigWords(k)
	c := m.ctx
	r := c.True // equal so far means >=
	for i := 3; i >= 0; i-- {
		kc := c.Const(64, kw[i])
		r = c.Or(c.Ult(kc, ws[i]), c.And(c.Eq(kc, ws[i]), r))
	}
	return r
}

// compressed returns the 33 bytes of a point given by limbs.
func (m *Machine) compressed(x, y []Value) []Value {
	ws := m.limbWords(x, 26)
	par := m.parity(y)
	first := m.ctx.Concat([]*Expr{par, m.ctx.Const(7, 1)})
	return append([]Value{m.ev(first)}, m.wordBytes(ws, 32)...)
}

// opaque reports whether a word comes straight from an uninterpreted function.
// sigWords tells whether four words are half of a signature made by Sign.
func sigWords(ws []*Expr, from int) bool {
	for i, e := range ws {
		if e.op != OUF || e.grp.fam != "schnorr.sign" || e.grp.parts[from+i] != e {
			return false
		}
	}
	return true
}

func opaque(e *Expr) bool {
	for e.op == OExtract {
		e = e.args[0]
	}
	return e.op == OUF
}

func (m *Machine) pointArgs(p Value) ([]*Expr, bool) {
	a := p.r.(*Agg)
	cs := a.cells[p.n : p.n+3*fieldSize]
	z, ok := limbsBig(cs[2*fieldSize:], 26)
	if !ok || z.Cmp(big.NewInt(1)) != 0 {
		return nil, false
	}
	return append(m.limbWords(cs[:fieldSize], 26), m.ctx.ZExt(m.parity(cs[fieldSize:]), 64)), true
}

func scalarFrom(ws []uint64) *secp256k1.ModNScalar {
	var s secp256k1.ModNScalar
	s.SetByteSlice(u64sToBytes(ws))
	return &s
}

func pointFrom(a []uint64) (secp256k1.JacobianPoint, bool) {
	var j secp256k1.JacobianPoint
	k, ok := nativeLift(a[:4], a[4]&1 == 1)
	if !ok {
		return j, false
	}
	k.AsJacobian(&j)
	return j, true
}

func pointOut(j *secp256k1.JacobianPoint) []uint64 {
	j.ToAffine()
	x := bigWords(fieldBig(&j.X))
	return append(x, uint64(fieldBig(&j.Y).Bit(0)))
}

func initCrypto() {
	sha := "crypto/sha256."
	dig := "(*crypto/sha256.digest)."
	intr[sha+"Sum256"] = func(m *Machine, fr *frame, a []Value) Value { return aggVal(m.sha256(byteCells(a[0]))) }
	type shaState struct{ data []Value }
	intr[sha+"New"] = func(m *Machine, fr *frame, a []Value) Value {
		t := m.ld.pkgType("crypto/sha256", "digest")
		obj := m.newAgg(m.ld.tinfo(t).size)
		if m.initDepth > 0 {
			panic(m.unsup("sha256.New during package initialisation"))
		}
		m.aux[obj] = &shaState{}
		return Value{r: &Iface{t: m.ld.rtype(newPtr(t)), v: Value{r: obj}}}
	}
	st := func(m *Machine, v Value) *shaState {
		s, _ := m.aux[v.r].(*shaState)
		if s == nil {
			panic(m.unsup("unknown sha256 state"))
		}
		return s
	}
	intr[dig+"Write"] = func(m *Machine, fr *frame, a []Value) Value {
		s := st(m, a[0])
		b := byteCells(a[1])
		s.data = append(s.data[:len(s.data):len(s.data)], b...)
		return tuple(Value{n: uint64(len(b))}, Value{})
	}
	intr[dig+"Reset"] = func(m *Machine, fr *frame, a []Value) Value { st(m, a[0]).data = nil; return Value{} }
	intr[dig+"Size"] = func(m *Machine, fr *frame, a []Value) Value { return Value{n: 32} }
	intr[dig+"BlockSize"] = func(m *Machine, fr *frame, a []Value) Value { return Value{n: 64} }
	intr[dig+"Sum"] = func(m *Machine, fr *frame, a []Value) Value {
		h := m.sha256(st(m, a[0]).data)
		return m.appendCells(a[1], h, 32, 1)
	}
	intr[dig+"MarshalBinary"] = func(m *Machine, fr *frame, a []Value) Value {
		return tuple(Value{}, m.errVal("unsupported"))
	}
	intr["crypto/internal/boring/sig.StandardCrypto"] = nop
	intr["crypto/internal/boring/sig.BoringCrypto"] = nop

	// ---- secp256k1 ----
	F := func(recv, name string, f intrinsic) { intr["(*"+secpPkg+recv+")."+name] = f }
	setBytes := func(boolean bool) intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			var b []Value
			if boolean {
				b = byteCells(a[1])
				if len(b) > 32 {
					b = b[:32]
				}
				b = append(make([]Value, 32-len(b)), b...)
			} else {
				ar := a[1].r.(*Agg)
				b = ar.cells[a[1].n : a[1].n+32]
			}
			ws := m.words(b)
			m.setCells(a[0], 0, m.wordLimbs(ws, 26, fieldSize))
			ov := m.geConst(ws, secpP)
			if sigWords(ws, 0) {
				ov = m.ctx.False // Sign only returns r below the field prime
			}
			if boolean {
				return m.ev(ov)
			}
			return m.ev(m.ctx.Ite(ov, m.ctx.Const(32, 1), m.ctx.Const(32, 0)))
		}
	}
	F("FieldVal", "SetByteSlice", setBytes(true))
	F("FieldVal", "SetBytes", setBytes(false))
	F("FieldVal", "Normalize", func(m *Machine, fr *frame, a []Value) Value {
		cs := fieldCells(m, a[0])
		if anySym(cs) || parityOnly(cs) {
			return a[0]
		}
		b, _ := limbsBig(cs, 26)
		b.Mod(b, secpP)
		m.setFieldBig(a[0], 0, b)
		return a[0]
	})
	F("FieldVal", "Equals", func(m *Machine, fr *frame, a []Value) Value {
		x, y := fieldCells(m, a[0]), fieldCells(m, a[1])
		if parityOnly(x) || parityOnly(y) {
			return m.ev(m.ctx.Eq(m.parity(x), m.parity(y)))
		}
		r := m.ctx.True
		xw, yw := m.limbWords(x, 26), m.limbWords(y, 26)
		for i := range xw {
			r = m.ctx.And(r, m.ctx.Eq(xw[i], yw[i]))
		}
		return m.ev(r)
	})
	scalarSet := func(boolean bool) intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			var b []Value
			if boolean {
				b = byteCells(a[1])
				if len(b) > 32 {
					b = b[:32]
				}
				b = append(make([]Value, 32-len(b)), b...)
			} else {
				ar := a[1].r.(*Agg)
				b = ar.cells[a[1].n : a[1].n+32]
			}
			ws := m.words(b)
			ov := false
			if k, ok := constWords(ws); ok {
				v := wordsBig(k)
				if v.Cmp(secpN) >= 0 {
					ov = true
					v.Sub(v, secpN)
				}
				ws = m.constExprs(bigWords(v))
			} else if sigWords(ws, 4) {
				// Sign only returns s below the group order
			} else if opaque(ws[0]) {
				// a digest at or above the group order has probability 2^-128
				m.ex_.bound("a SHA-256 output used as a scalar is below the group order")
			} else {
				ov = m.branch(m.geConst(ws, secpN))
			}
			m.setCells(a[0], 0, m.wordLimbs(ws, 32, 8))
			return bval(ov)
		}
	}
	F("ModNScalar", "SetByteSlice", scalarSet(true))
	F("ModNScalar", "SetBytes", scalarSet(false))

	pkType := func(m *Machine) int { return 2 * fieldSize }
	intr[secpPkg+"ParsePubKey"] = func(m *Machine, fr *frame, a []Value) Value {
		b := byteCells(a[0])
		fail := func(kind string) Value {
			t := m.ld.pkgType("github.com/decred/dcrd/dcrec/secp256k1/v4", "Error")
			kt := m.ld.pkgType("github.com/decred/dcrd/dcrec/secp256k1/v4", "ErrorKind")
			k := Value{r: &Iface{t: m.ld.rtype(kt), v: strVal(kind)}}
			return tuple(Value{}, Value{r: &Iface{t: m.ld.rtype(t), v: aggVal([]Value{k, strVal("invalid public key")})}})
		}
		if bs, ok := concBytes(b); ok {
			k, err := secp256k1.ParsePubKey(bs)
			if err != nil {
				return fail(string(err.(secp256k1.Error).Err.(secp256k1.ErrorKind)))
			}
			obj := Value{r: m.newAgg(pkType(m))}
			m.setFieldBig(obj, 0, k.X())
			m.setFieldBig(obj, fieldSize, k.Y())
			return tuple(obj, Value{})
		}
		if len(b) != 33 {
			if len(b) == 65 {
				panic(m.unsup("symbolic uncompressed public key"))
			}
			return fail("ErrPubKeyInvalidLen")
		}
		c := m.ctx
		f := m.ex(b[0], 8)
		ws := m.words(b[1:])
		ok := c.And(c.Eq(c.Extract(f, 1, 7), c.Const(7, 1)), m.validX(ws))
		if _, conc := constWords(ws); !conc {
			ok = c.And(ok, c.Not(m.geConst(ws, secpP)))
		}
		if !m.branch(ok) {
			return fail("ErrPubKeyInvalidFormat")
		}
		obj := Value{r: m.newAgg(pkType(m))}
		m.setCells(obj, 0, m.wordLimbs(ws, 26, fieldSize))
		m.setCells(obj, fieldSize, m.symY(c.Extract(f, 0, 1)))
		return tuple(obj, Value{})
	}
	intr["("+secpPkg+"PublicKey).SerializeCompressed"] = func(m *Machine, fr *frame, a []Value) Value {
		cs := cellsOf(a[0], 2*fieldSize)
		return m.newByteSlice(m.compressed(cs[:fieldSize], cs[fieldSize:2*fieldSize]))
	}
	intr["("+secpPkg+"PublicKey).SerializeUncompressed"] = func(m *Machine, fr *frame, a []Value) Value {
		cs := cellsOf(a[0], 2*fieldSize)
		if parityOnly(cs[fieldSize:]) {
			panic(m.unsup("uncompressed form of a symbolic public key"))
		}
		out := []Value{{n: 4}}
		out = append(out, m.wordBytes(m.limbWords(cs[:fieldSize], 26), 32)...)
		out = append(out, m.wordBytes(m.limbWords(cs[fieldSize:], 26), 32)...)
		return m.newByteSlice(out)
	}
	intr[secpPkg+"isOnCurve"] = func(m *Machine, fr *frame, a []Value) Value {
		x, y := fieldCells(m, a[0]), fieldCells(m, a[1])
		if anySym(x) || anySym(y) || parityOnly(y) {
			if parityOnly(y) {
				return m.ev(m.validX(m.limbWords(x, 26)))
			}
			panic(m.unsup("isOnCurve of a symbolic point"))
		}
		xb, _ := limbsBig(x, 26)
		yb, _ := limbsBig(y, 26)
		l := new(big.Int).Mul(yb, yb)
		r := new(big.Int).Exp(xb, big.NewInt(3), secpP)
		r.Add(r, big.NewInt(7))
		l.Sub(l, r)
		l.Mod(l, secpP)
		return bval(l.Sign() == 0)
	}
	intr[secpPkg+"DecompressY"] = func(m *Machine, fr *frame, a []Value) Value {
		x := fieldCells(m, a[0])
		ws := m.limbWords(x, 26)
		if k, ok := constWords(ws); ok && a[1].r == nil {
			p, v := nativeLift(k, a[1].n != 0)
			if v {
				m.setFieldBig(a[2], 0, p.Y())
			}
			return bval(v)
		}
		if !m.branch(m.validX(ws)) {
			return bval(false)
		}
		m.setCells(a[2], 0, m.symY(m.ctx.Ite(m.ex(a[1], 0), m.ctx.Const(1, 1), m.ctx.Const(1, 0))))
		return bval(true)
	}
	scalarWords := func(m *Machine, p Value) []*Expr {
		ar := p.r.(*Agg)
		return m.limbWords(ar.cells[p.n:p.n+8], 32)
	}
	base := func(m *Machine, fr *frame, a []Value) Value {
		ws := scalarWords(m, a[0])
		if k, ok := constWords(ws); ok {
			var r secp256k1.JacobianPoint
			secp256k1.ScalarBaseMultNonConst(scalarFrom(k), &r)
			r.ToAffine()
			m.setPoint(a[1], &r)
			return Value{}
		}
		ps := m.ctx.UF("secp.basemul", ws, []uint8{64, 64, 64, 64, 64}, false, func(a []uint64) []uint64 {
			var r secp256k1.JacobianPoint
			secp256k1.ScalarBaseMultNonConst(scalarFrom(a), &r)
			return pointOut(&r)
		})
		m.setSymPoint(a[1], ps[:4], m.ctx.Extract(ps[4], 0, 1))
		return Value{}
	}
	intr[secpPkg+"ScalarBaseMultNonConst"] = base
	intr[secpPkg+"ScalarMultNonConst"] = func(m *Machine, fr *frame, a []Value) Value {
		ws := scalarWords(m, a[0])
		k, ok := constWords(ws)
		pt, ok2 := m.nativePoint(a[1])
		if ok && ok2 {
			var r secp256k1.JacobianPoint
			secp256k1.ScalarMultNonConst(scalarFrom(k), &pt, &r)
			r.ToAffine()
			m.setPoint(a[2], &r)
			return Value{}
		}
		pa, ok3 := m.pointArgs(a[1])
		if !ok3 {
			panic(m.unsup("scalar multiplication of a symbolic Jacobian point"))
		}
		ps := m.ctx.UF("secp.mul", append(append([]*Expr{}, ws...), pa...), []uint8{64, 64, 64, 64, 64}, false, func(a []uint64) []uint64 {
			p, v := pointFrom(a[4:])
			if !v {
				return make([]uint64, 5)
			}
			var r secp256k1.JacobianPoint
			secp256k1.ScalarMultNonConst(scalarFrom(a[:4]), &p, &r)
			return pointOut(&r)
		})
		m.setSymPoint(a[2], ps[:4], m.ctx.Extract(ps[4], 0, 1))
		return Value{}
	}
	intr[secpPkg+"AddNonConst"] = func(m *Machine, fr *frame, a []Value) Value {
		p, ok := m.nativePoint(a[0])
		q, ok2 := m.nativePoint(a[1])
		if !ok || !ok2 {
			panic(m.unsup("addition of symbolic points"))
		}
		var r secp256k1.JacobianPoint
		secp256k1.AddNonConst(&p, &q, &r)
		m.setPoint(a[2], &r)
		return Value{}
	}
	F("JacobianPoint", "ToAffine", func(m *Machine, fr *frame, a []Value) Value {
		p, ok := m.nativePoint(a[0])
		if !ok {
			if _, ok := m.pointArgs(a[0]); !ok {
				panic(m.unsup("ToAffine of a symbolic point"))
			}
			return Value{}
		}
		p.ToAffine()
		m.setPoint(a[0], &p)
		return Value{}
	})
	intr[secpPkg+"GeneratePrivateKey"] = func(m *Machine, fr *frame, a []Value) Value {
		n, _ := m.aux["genkey"].(int)
		m.aux["genkey"] = n + 1
		h := sha256.Sum256([]byte{'k', 'e', 'y', byte(n), byte(n >> 8)})
		obj := Value{r: m.newAgg(8)}
		m.setCells(obj, 0, m.wordLimbs(m.constExprs(bytesToU64s(h[:])), 32, 8))
		return tuple(obj, Value{})
	}
	intr["crypto/rand.Read"] = func(m *Machine, fr *frame, a []Value) Value {
		ar, off, n, _ := slicePart(a[0])
		for i := 0; i < n; i++ {
			k, _ := m.aux["rand"].(int)
			m.aux["rand"] = k + 1
			m.touch(ar, off+i, 1)
			h := sha256.Sum256([]byte{'r', byte(k), byte(k >> 8), byte(k >> 16)})
			ar.cells[off+i] = Value{n: uint64(h[0])}
		}
		return tuple(Value{n: uint64(n)}, Value{})
	}
	intr["(*crypto/rand.reader).Read"] = func(m *Machine, fr *frame, a []Value) Value {
		return intr["crypto/rand.Read"](m, fr, a[1:])
	}

	// ---- schnorr ----
	sp := "github.com/btcsuite/btcd/btcec/v2/schnorr."
	sigSize := fieldSize + 8
	intr[sp+"Sign"] = func(m *Machine, fr *frame, a []Value) Value {
		kc := scalarWords(m, a[0])
		hb := byteCells(a[1])
		if len(hb) != 32 {
			return tuple(Value{}, m.errVal("wrong size for message hash"))
		}
		hw := m.words(hb)
		k, ok := constWords(kc)
		if !ok {
			panic(m.unsup("signing with a symbolic key"))
		}
		native := func(a []uint64) []uint64 {
			priv := secp256k1.NewPrivateKey(scalarFrom(a[:4]))
			h := u64sToBytes(a[4:8])
			s, err := schnorr.Sign(priv, h)
			if err != nil {
				return make([]uint64, 8)
			}
			return bytesToU64s(s.Serialize())
		}
		var out []*Expr
		if h, ok := constWords(hw); ok {
			out = m.constExprs(native(append(append([]uint64{}, k...), h...)))
		} else {
			out = m.ctx.UF("schnorr.sign", append(append([]*Expr{}, kc...), hw...), []uint8{64, 64, 64, 64, 64, 64, 64, 64}, true, native)
		}
		obj := Value{r: m.newAgg(sigSize)}
		m.setCells(obj, 0, m.wordLimbs(out[:4], 26, fieldSize))
		m.setCells(obj, fieldSize, m.wordLimbs(out[4:], 32, 8))
		return tuple(obj, Value{})
	}
	intr["(*"+sp+"Signature).Verify"] = func(m *Machine, fr *frame, a []Value) Value {
		if a[0].r == nil || a[2].r == nil {
			m.nilDeref()
		}
		sa := a[0].r.(*Agg).cells[a[0].n:]
		rw := m.limbWords(sa[:fieldSize], 26)
		sw := m.limbWords(sa[fieldSize:fieldSize+8], 32)
		hb := byteCells(a[1])
		if len(hb) != 32 {
			return bval(false)
		}
		hw := m.words(hb)
		pa := a[2].r.(*Agg).cells[a[2].n:]
		pw := m.limbWords(pa[:fieldSize], 26)
		c := m.ctx
		// a signature produced by Sign verifies for exactly its key and digest
		if rw[0].op == OUF && rw[0].grp.fam == "schnorr.sign" {
			g := rw[0].grp
			same := true
			for i, e := range append(append([]*Expr{}, rw...), sw...) {
				if e != g.parts[i] {
					same = false
				}
			}
			if kk, ok := constWords(g.args[:4]); same && ok {
				pub := secp256k1.NewPrivateKey(scalarFrom(kk)).PubKey()
				xw := m.constExprs(bigWords(pub.X()))
				r := c.True
				for i := 0; i < 4; i++ {
					r = c.And(r, c.Eq(pw[i], xw[i]))
				}
				r = c.And(r, m.eqWords(hw, g.args[4:]))
				return m.ev(r)
			}
		}
		args := append(append(append(append([]*Expr{}, rw...), sw...), hw...), pw...)
		native := func(a []uint64) []uint64 {
			sig, err := schnorr.ParseSignature(u64sToBytes(a[:8]))
			if err != nil {
				return []uint64{0}
			}
			pk, err := schnorr.ParsePubKey(u64sToBytes(a[12:16]))
			if err != nil {
				return []uint64{0}
			}
			return []uint64{b2u(sig.Verify(u64sToBytes(a[8:12]), pk))}
		}
		if k, ok := constWords(args); ok {
			return bval(native(k)[0] != 0)
		}
		p := c.UF("schnorr.verify", args, []uint8{8}, false, native)
		return m.ev(c.Eq(p[0], c.Const(8, 1)))
	}

	// ---- chacha20 ----
	type ccState struct {
		key []*Expr
		off int
	}
	ks := func(m *Machine, key []*Expr, off, n int) []Value {
		out := make([]Value, n)
		if k, ok := constWords(key); ok {
			cc, _ := chacha20.NewUnauthenticatedCipher(u64sToBytes(k), make([]byte, 12))
			buf := make([]byte, off+n)
			cc.XORKeyStream(buf, buf)
			for i := range out {
				out[i].n = uint64(buf[off+i])
			}
			return out
		}
		var blk []Value
		cur := -1
		for i := range out {
			b := (off + i) / 64
			if b != cur {
				cur = b
				ps := m.ctx.UF("chacha20", append([]*Expr{m.ctx.Const(64, uint64(b))}, key...), []uint8{64, 64, 64, 64, 64, 64, 64, 64}, false, func(a []uint64) []uint64 {
					cc, _ := chacha20.NewUnauthenticatedCipher(u64sToBytes(a[1:]), make([]byte, 12))
					cc.SetCounter(uint32(a[0]))
					var o [64]byte
					cc.XORKeyStream(o[:], o[:])
					return bytesToU64s(o[:])
				})
				blk = m.wordBytes(ps, 64)
			}
			out[i] = blk[(off+i)%64]
		}
		return out
	}
	xor := func(m *Machine, x, y Value) Value {
		if x.r == nil && y.r == nil {
			return Value{n: x.n ^ y.n}
		}
		return m.ev(m.ctx.bitop(OBXor, m.ex(x, 8), m.ex(y, 8)))
	}
	aead := "github.com/aead/chacha20"
	newCipher := func(m *Machine, fr *frame, a []Value) Value {
		nonce, ok := concBytes(byteCells(a[0]))
		if !ok {
			panic(m.unsup("symbolic chacha20 nonce"))
		}
		for _, b := range nonce {
			if b != 0 {
				panic(m.unsup("non-zero chacha20 nonce"))
			}
		}
		key := byteCells(a[1])
		if len(key) != 32 || len(nonce) != 8 {
			panic(m.unsup("chacha20 parameters"))
		}
		t := m.ld.pkgType(aead+"/chacha", "Cipher")
		obj := m.newAgg(m.ld.tinfo(t).size)
		m.aux[obj] = &ccState{key: m.words(key)}
		return tuple(Value{r: obj}, Value{})
	}
	intr[aead+"/chacha.NewCipher"] = func(m *Machine, fr *frame, a []Value) Value { return newCipher(m, fr, a) }
	intr[aead+".NewCipher"] = func(m *Machine, fr *frame, a []Value) Value {
		r := newCipher(m, fr, a).r.([]Value)
		t := newPtr(m.ld.pkgType(aead+"/chacha", "Cipher"))
		return tuple(Value{r: &Iface{t: m.ld.rtype(t), v: r[0]}}, Value{})
	}
	intr["(*"+aead+"/chacha.Cipher).XORKeyStream"] = func(m *Machine, fr *frame, a []Value) Value {
		s, _ := m.aux[a[0].r].(*ccState)
		if s == nil {
			panic(m.unsup("unknown chacha20 state"))
		}
		src := append([]Value(nil), byteCells(a[2])...)
		da, off, n, _ := slicePart(a[1])
		if n < len(src) {
			panic(m.unsup("chacha20: dst too short"))
		}
		k := ks(m, s.key, s.off, len(src))
		s.off += len(src)
		if len(src) > 0 {
			m.touch(da, off, len(src))
		}
		for i := range src {
			da.cells[off+i] = xor(m, src[i], k[i])
		}
		return Value{}
	}

	// ---- byte loops of the onion library ----
	const sphinx = "github.com/lightningnetwork/lightning-onion."
	intr[sphinx+"xor"] = func(m *Machine, fr *frame, a []Value) Value {
		dst, x, y := byteCells(a[0]), byteCells(a[1]), byteCells(a[2])
		n := min(len(x), len(y))
		if len(dst) < n {
			panic(m.unsup("xor into a short slice"))
		}
		if ag, off, _, _ := slicePart(a[0]); n > 0 {
			m.touch(ag, off, n)
		}
		for i := 0; i < n; i++ {
			dst[i] = xor(m, x[i], y[i])
		}
		return Value{n: uint64(n)}
	}
	intr[sphinx+"rightShift"] = func(m *Machine, fr *frame, a []Value) Value {
		s := byteCells(a[0])
		n := int(m.concInt(a[1], 64))
		if n < 0 || n > len(s) {
			panic(m.unsup("rightShift"))
		}
		if ag, off, l, _ := slicePart(a[0]); l > 0 {
			m.touch(ag, off, l)
		}
		copy(s[n:], s[:len(s)-n])
		for i := 0; i < n; i++ {
			s[i] = Value{}
		}
		return Value{}
	}

	// ---- chacha20poly1305 ----
	pp := "(*golang.org/x/crypto/chacha20poly1305.chacha20poly1305)."
	tagOf := func(m *Machine, key []*Expr, ad, ct []Value) []Value {
		adw, ctw := m.words(ad), m.words(ct)
		na, nc := len(ad), len(ct)
		c := m.ctx
		args := append([]*Expr{c.Const(64, uint64(na)), c.Const(64, uint64(nc))}, key...)
		args = append(append(args, adw...), ctw...)
		native := func(a []uint64) []uint64 {
			kb := u64sToBytes(a[2:6])
			adb := nativeBytes(a[6:6+len(adw)], na)
			ctb := nativeBytes(a[6+len(adw):], nc)
			// recover the plaintext, then seal it to obtain the tag
			cc, _ := chacha20.NewUnauthenticatedCipher(kb, make([]byte, 12))
			cc.SetCounter(1)
			pt := make([]byte, nc)
			cc.XORKeyStream(pt, ctb)
			ae, _ := chacha20poly1305.New(kb)
			out := ae.Seal(nil, make([]byte, 12), pt, adb)
			return bytesToU64s(out[nc:])
		}
		var ps []*Expr
		if k, ok := constWords(args); ok {
			ps = m.constExprs(native(k))
		} else {
			ps = c.UF("poly1305", args, []uint8{64, 64}, true, native)
		}
		return m.wordBytes(ps, 16)
	}
	aeadKey := func(m *Machine, v Value) []*Expr {
		ar := v.r.(*Agg)
		return m.words(ar.cells[v.n : v.n+32])
	}
	zeroNonce := func(m *Machine, v Value) {
		n, ok := concBytes(byteCells(v))
		if !ok || len(n) != 12 {
			panic(m.unsup("aead nonce"))
		}
		for _, b := range n {
			if b != 0 {
				panic(m.unsup("non-zero aead nonce"))
			}
		}
	}
	intr[pp+"Seal"] = func(m *Machine, fr *frame, a []Value) Value {
		zeroNonce(m, a[2])
		key := aeadKey(m, a[0])
		pt := byteCells(a[3])
		k := ks(m, key, 64, len(pt))
		ct := make([]Value, len(pt))
		for i := range pt {
			ct[i] = xor(m, pt[i], k[i])
		}
		out := append(ct, tagOf(m, key, byteCells(a[4]), ct)...)
		return m.appendCells(a[1], out, len(out), 1)
	}
	intr[pp+"Open"] = func(m *Machine, fr *frame, a []Value) Value {
		zeroNonce(m, a[2])
		key := aeadKey(m, a[0])
		in := byteCells(a[3])
		fail := func() Value { return tuple(Value{}, m.errVal("chacha20poly1305: message authentication failed")) }
		if len(in) < 16 {
			return fail()
		}
		ct := in[:len(in)-16]
		tag := tagOf(m, key, byteCells(a[4]), ct)
		if !m.branch(m.eqCells(tag, in[len(in)-16:])) {
			return fail()
		}
		k := ks(m, key, 64, len(ct))
		pt := make([]Value, len(ct))
		for i := range pt {
			pt[i] = xor(m, ct[i], k[i])
		}
		return tuple(m.appendCells(a[1], pt, len(pt), 1), Value{})
	}
}

func newPtr(t types.Type) types.Type { return types.NewPointer(t) }
