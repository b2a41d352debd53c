// Harness for the offer string encoding.
package main

import (
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offers"
	"github.com/carlakc/boltnd/zzverif/hlib"
	"github.com/carlakc/boltnd/zzverif/sym"
)

const charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// regroup5 spells bytes in 5-bit characters, the last one padded with zeroes.
func regroup5(b []byte) string {
	var out []byte
	acc, bits := uint(0), uint(0)
	for _, c := range b {
		acc = (acc<<8 | uint(c)) & 0xfff
		bits += 8
		for bits >= 5 {
			bits -= 5
			out = append(out, charset[acc>>bits&31])
		}
	}
	if bits > 0 {
		out = append(out, charset[acc<<(5-bits)&31])
	}
	return string(out)
}

// offerBytes is a valid unsigned offer whose description has n bytes: every
// number of padding bits occurs for n from 1 to 5.
func offerBytes(n int) []byte {
	b := hlib.PutRec(nil, 10, sym.Bytes("description", n))
	return hlib.PutRec(b, 30, hlib.Priv(3).PubKey().SerializeCompressed()[1:])
}

// fixedOffer is the same with a fixed description.
func fixedOffer(n int) []byte {
	b := hlib.PutRec(nil, 10, []byte("coffee or tea")[:n])
	return hlib.PutRec(b, 30, hlib.Priv(3).PubKey().SerializeCompressed()[1:])
}

func space(c byte) bool {
	return c == ' ' || c >= '\t' && c <= '\r'
}

func value(c byte) (byte, bool) {
	for i := 0; i < len(charset); i++ {
		if c == charset[i] {
			return byte(i), true
		}
	}
	return 0, false
}

// spell reads the bytes an offer string stands for.
func spell(s string) ([]byte, bool) {
	// Joins must stand between other characters.
	var parts [][]byte
	cur := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] == '+' {
			parts = append(parts, cur)
			cur = []byte{}
			continue
		}
		cur = append(cur, s[i])
	}
	parts = append(parts, cur)
	var all []byte
	for _, p := range parts {
		for len(p) > 0 && space(p[0]) {
			p = p[1:]
		}
		for len(p) > 0 && space(p[len(p)-1]) {
			p = p[:len(p)-1]
		}
		if len(p) == 0 {
			return nil, false
		}
		all = append(all, p...)
	}
	upper, lower := false, false
	for i, c := range all {
		if c >= 'A' && c <= 'Z' {
			upper = true
			all[i] = c + 32
		} else if c >= 'a' && c <= 'z' {
			lower = true
		}
	}
	if upper && lower {
		return nil, false
	}
	if len(all) < 4 || string(all[:4]) != "lno1" {
		return nil, false
	}
	var out []byte
	acc, bits := uint(0), uint(0)
	for _, c := range all[4:] {
		v, ok := value(c)
		if !ok {
			return nil, false
		}
		acc = (acc<<5 | uint(v)) & 0xfff
		bits += 5
		if bits >= 8 {
			bits -= 8
			out = append(out, byte(acc>>bits))
		}
	}
	if bits >= 5 || acc&(1<<bits-1) != 0 {
		return nil, false
	}
	return out, true
}

// accepted checks a decoded offer against the bytes of a stream that holds
// records an offer keeps.
func accepted(s string, want []byte) {
	sym.HashOrder(1)
	o, err := offers.DecodeOfferStr(s)
	sym.Assert(err == nil && o != nil, "a string that spells a valid offer is accepted")
	if err != nil || o == nil {
		return
	}
	b, err := lnwire.EncodeOffer(o)
	sym.Assert(err == nil, "the decoded offer encodes")
	sym.Observe("offer", b)
	sym.Assert(sym.EqBytes(b, want), "the result is the offer that the string spells")
}

func rejected(s string, why string) {
	sym.HashOrder(1)
	o, err := offers.DecodeOfferStr(s)
	sym.Assert(err != nil, why)
	sym.Assert(err == nil || o == nil, "no offer is returned with an error")
}

// judge decides any string: the bytes it spells decide, through the decoding
// and validation of the offer itself.
func judge(s string) {
	sym.HashOrder(1)
	b, ok := spell(s)
	o, err := offers.DecodeOfferStr(s)
	sym.Observe("err", err != nil)
	if !ok {
		sym.Reach("misspelt")
		sym.Assert(err != nil, "a string that spells nothing is rejected")
		return
	}
	want, derr := lnwire.DecodeOffer(b)
	if derr == nil {
		derr = want.Validate()
	}
	sym.Assert((err == nil) == (derr == nil), "a string is accepted exactly when the bytes it spells are a valid offer")
	if err != nil || derr != nil {
		sym.Reach("invalid offer")
		return
	}
	sym.Reach("accepted")
	x, err1 := lnwire.EncodeOffer(o)
	y, err2 := lnwire.EncodeOffer(want)
	sym.Assert(err1 == nil && err2 == nil, "the decoded offer encodes")
	sym.Assert(sym.EqBytes(x, y), "the result is the offer that the string spells")
	sym.Assert(o.MerkleRoot == want.MerkleRoot, "the result commits to the bytes that the string spells")
}

// upper spells a string in upper case.
func upper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// C14_Plain: whole strings for every description of one to five bytes.
func C14_Plain() {
	max := 5
	if sym.Thorough() {
		max = 9
	}
	b := offerBytes(1 + sym.Choose("len", max))
	sym.Reach("plain")
	accepted("lno1"+regroup5(b), b)
}

// C14_Signed: offers with a signature, an amount and quantities, in either case.
func C14_Signed() {
	sym.HashOrder(1)
	var b []byte
	b = hlib.PutRec(b, 8, []byte{200})
	b = hlib.PutRec(b, 10, []byte("tea"))
	b = hlib.PutRec(b, 22, []byte{byte(1 + sym.Choose("min", 3))})
	b = hlib.PutRec(b, 24, []byte{byte(1 + sym.Choose("max", 3))})
	b = hlib.PutRec(b, 30, hlib.Priv(3).PubKey().SerializeCompressed()[1:])
	if sym.Choose("signed", 2) == 1 {
		recs, _ := hlib.Parse(b, nil)
		root, _ := hlib.MerkleRoot(recs)
		sig, err := schnorr.Sign(hlib.Priv(3), hlib.TaggedHash("lightningoffersignature", root))
		if err != nil {
			sym.Skip()
		}
		v := sig.Serialize()
		if sym.Choose("altered", 2) == 1 {
			v[[]int{0, 31, 32, 63}[sym.Choose("at", 4)]] ^= sym.Byte("flip")
		}
		b = hlib.PutRec(b, 240, v)
	}
	s := "lno1" + regroup5(b)
	want, derr := lnwire.DecodeOffer(b)
	if derr == nil {
		derr = want.Validate()
	}
	o, err := offers.DecodeOfferStr(s)
	sym.Assert((err == nil) == (derr == nil), "a string is accepted exactly when the offer it spells is valid")
	if err != nil {
		sym.Reach("invalid offer")
		sym.Assert(o == nil, "no offer is returned with an error")
		return
	}
	sym.Reach("accepted")
	out, err := lnwire.EncodeOffer(o)
	sym.Assert(err == nil && sym.EqBytes(out, b), "the result is the offer that the string spells")
}

// C14_Case: a string in one case is accepted, in two it is not.
func C14_Case() {
	b := fixedOffer(1 + sym.Choose("len", 5))
	s := "lno1" + regroup5(b)
	u := upper(s)
	switch sym.Choose("case", 3) {
	case 0:
		sym.Reach("upper")
		accepted(u, b)
	case 1:
		// One letter differs.
		i := sym.Choose("at", len(s))
		if s[i] == u[i] {
			sym.Skip()
		}
		sym.Reach("mixed")
		if sym.Choose("flip", 2) == 0 {
			rejected(s[:i]+u[i:i+1]+s[i+1:], "mixed case is rejected")
		} else {
			rejected(u[:i]+s[i:i+1]+u[i+1:], "mixed case is rejected")
		}
	default:
		// The case changes part of the way.
		i := 1 + sym.Choose("at", len(s)-4)
		if s[:i] == u[:i] || s[i:] == u[i:] {
			sym.Skip()
		}
		rejected(s[:i]+u[i:], "mixed case is rejected")
	}
}

// C14_CaseJoins: joined or not, all letters are in one case. The case of each
// letter is free.
func C14_CaseJoins() {
	b := fixedOffer(1 + sym.Choose("len", 2)*4)
	s := "lno1" + regroup5(b)
	cuts := []int{0}
	if n := sym.Choose("joins", 3); n > 0 {
		cuts = append(cuts, 1+sym.Choose("cut", len(s)-8))
		if n > 1 {
			cuts = append(cuts, cuts[1]+1+sym.Choose("cut2", 4))
		}
	}
	cuts = append(cuts, len(s))
	join := []string{"+", " +\n "}[sym.Choose("join", 2)]
	var text []byte
	all, any := byte(32), byte(0)
	kind := sym.Choose("case", 3)
	for i := 0; i+1 < len(cuts); i++ {
		if i > 0 {
			text = append(text, join...)
		}
		part := []byte(s[cuts[i]:cuts[i+1]])
		for k, c := range part {
			if c < 'a' || c > 'z' {
				continue
			}
			change := []byte{0, 32, 0}[kind]
			if kind == 2 {
				change = sym.Byte("case") & 32
			}
			part[k] = c - change
			all &= change
			any |= change
		}
		text = append(text, part...)
	}
	if kind < 2 {
		sym.Reach("one case")
		accepted(string(text), b)
		return
	}
	sym.Assume(all != any)
	sym.Reach("mixed")
	rejected(string(text), "mixed case is rejected")
}

// C14_Again: what a string decodes to does not depend on the strings before,
// and does not change afterwards.
func C14_Again() {
	n := 1 + sym.Choose("len", 3)
	b1, b2 := offerBytes(n), offerBytes(n)
	s1, s2 := "lno1"+regroup5(b1), "lno1"+regroup5(b2)
	sym.HashOrder(1)
	o1, err := offers.DecodeOfferStr(s1)
	if err != nil {
		return // judged elsewhere
	}
	switch sym.Choose("between", 3) {
	case 0:
		accepted(s2, b2)
	case 1:
		rejected(s2[:len(s2)-4]+"!"+s2[len(s2)-3:], "a wrong character is rejected")
	case 2:
		accepted(upper(s1), b1)
	}
	got, err := lnwire.EncodeOffer(o1)
	sym.Assert(err == nil && sym.EqBytes(got, b1), "an offer does not change when others are decoded")
	accepted(s1, b1)
}

// C14_OneByte: any byte in place of any character.
func C14_OneByte() {
	n := 4
	if sym.Thorough() {
		n = 1 + sym.Choose("len", 5)
	}
	s := "lno1" + regroup5(fixedOffer(n))
	i := sym.Choose("at", len(s))
	if !sym.Thorough() && i > 14 && i < len(s)-4 && i%6 != 0 {
		sym.Skip()
	}
	sym.LenCap(20)
	judge(s[:i] + sym.String("byte", 1) + s[i+1:])
}

// C14_Insert: any one or two ASCII bytes inserted anywhere, the beginning and
// the end included.
func C14_Insert() {
	n := 1
	if sym.Thorough() {
		n = 1 + sym.Choose("len", 4)
	}
	s := "lno1" + regroup5(fixedOffer(n))
	i := sym.Choose("at", len(s)+1)
	if i > 5 && i < len(s)-2 && (!sym.Thorough() || i%8 != 0) {
		sym.Skip()
	}
	sym.LenCap(20)
	n = 1
	if sym.Thorough() || i < 2 || i >= len(s)-1 {
		n = 2
	}
	in := sym.String("bytes", 1+sym.Choose("insert", n))
	for k := 0; k < len(in); k++ {
		sym.Assume(in[k] < 0x80)
	}
	judge(s[:i] + in + s[i:])
}

// C14_Joins: up to three joins anywhere, with whitespace around them.
func C14_Joins() {
	b := fixedOffer(1 + sym.Choose("len", 2))
	s := "lno1" + regroup5(b)
	spaces := []string{"", " ", "\t", "\n", "\r\n", " \v\f ", "   "}
	join := func() string {
		return spaces[sym.Choose("before", len(spaces))] + "+" + spaces[sym.Choose("after", len(spaces))]
	}
	i := 1 + sym.Choose("at", len(s)-1)
	switch sym.Choose("joins", 2) {
	case 0:
		if !sym.Thorough() && i > 5 && i < len(s)-2 && i%4 != 0 {
			sym.Skip()
		}
		sym.Reach("joined")
		accepted(s[:i]+join()+s[i:], b)
	default:
		if i > 5 && i < len(s)-2 && i%16 != 0 || !sym.Thorough() && i > 3 {
			sym.Skip()
		}
		sym.Reach("joined twice")
		j := []int{1, (len(s) - i) / 2, len(s) - i - 1}[sym.Choose("second", 3)]
		if j < 1 || j >= len(s)-i {
			sym.Skip()
		}
		c := spaces[sym.Choose("between", len(spaces))] + "+"
		accepted(s[:i]+join()+s[i:i+j]+c+s[i+j:], b)
	}
}

// C14_Long: long offers, whole or cut into many parts.
func C14_Long() {
	lens := []int{600, 1000, 2500}
	if sym.Thorough() {
		lens = append(lens, 60, 5000, 20000)
	}
	n := lens[sym.Choose("len", len(lens))]
	v := make([]byte, n)
	for i := range v {
		v[i] = 'a' + byte(i%26)
	}
	v[0], v[n/2], v[n-1] = sym.Byte("v"), sym.Byte("v"), sym.Byte("v")
	b := hlib.PutRec(nil, 10, v)
	b = hlib.PutRec(b, 30, hlib.Priv(3).PubKey().SerializeCompressed()[1:])
	s := "lno1" + regroup5(b)
	if sym.Choose("case", 2) == 1 {
		// The case of a symbolic letter is a case of its own.
		v[0], v[n/2], v[n-1] = 'x', 'y', 'z'
		b = hlib.PutRec(nil, 10, v)
		b = hlib.PutRec(b, 30, hlib.Priv(3).PubKey().SerializeCompressed()[1:])
		s = upper("lno1" + regroup5(b))
	}
	parts := []int{1, 2, 10, 40}[sym.Choose("parts", 4)]
	join := []string{"+", "+\n  "}[sym.Choose("join", 2)]
	text := ""
	for i := 0; i < parts; i++ {
		if i > 0 {
			text += join
		}
		text += s[len(s)*i/parts : len(s)*(i+1)/parts]
	}
	sym.Reach("long")
	accepted(text, b)
}

// C14_BadJoins: leading, trailing and doubled joins, and whitespace without a
// join, are rejected wherever they stand.
func C14_BadJoins() {
	s := "lno1" + regroup5(fixedOffer(1+sym.Choose("len", 2)))
	sp := []string{"", " ", "\t \n"}[sym.Choose("space", 3)]
	sp2 := []string{"", " ", "\r\n"}[sym.Choose("space2", 3)]
	i := 1 + sym.Choose("at", len(s)-1)
	sym.Reach("bad join")
	switch sym.Choose("bad", 5) {
	case 0:
		rejected(sp+"+"+sp2+s, "a leading join is rejected")
	case 1:
		rejected(s+sp+"+"+sp2, "a trailing join is rejected")
	case 2:
		rejected(s[:i]+sp+"+"+sp2+"+"+s[i:], "doubled joins are rejected")
	case 3:
		if sp == "" {
			sym.Skip()
		}
		rejected(s[:i]+sp+s[i:], "whitespace without a join is rejected")
	default:
		rejected([]string{"", "+", " ", "+ +", "lno1", "lno1+", "1", "lno"}[sym.Choose("short", 8)], "a string without an offer is rejected")
	}
}

// C14_Prefix: any other prefix of up to four characters is rejected.
func C14_Prefix() {
	b := fixedOffer(1)
	n := sym.Choose("len", 5)
	p := sym.String("prefix", n)
	for i := 0; i < n; i++ {
		// Joins and whitespace are the subject of other entries.
		sym.Assume(sym.And(sym.And(p[i] > ' ', p[i] < 0x7f), sym.And(p[i] != '+', p[i] != '1')))
	}
	switch sym.Choose("separator", 3) {
	case 0:
		s := p + "1" + regroup5(b)
		if p == "lno" {
			sym.Reach("right prefix")
			accepted(s, b)
			return
		}
		sym.Reach("wrong prefix")
		rejected(s, "a wrong prefix is rejected")
	case 1:
		rejected(p+regroup5(b), "a missing separator is rejected")
	default:
		if n == 0 {
			sym.Skip()
		}
		rejected("lno1"+p+"1"+regroup5(b), "only the last 1 separates the prefix")
	}
}

// C14_Padding: anything but zero padding shorter than a character is rejected.
func C14_Padding() {
	b := offerBytes(1 + sym.Choose("len", 5))
	pad := (5 - len(b)*8%5) % 5
	s := regroup5(b)
	switch sym.Choose("how", 3) {
	case 0:
		if pad == 0 {
			sym.Skip()
		}
		// The padding bits of the last character are arbitrary.
		x := sym.Byte("padding")
		sym.Assume(x < 32)
		last := b[len(b)-1] << uint(pad) & 31
		sym.Assume(sym.And(x>>uint(pad) == last>>uint(pad), x != last))
		sym.Reach("non-zero padding")
		rejected("lno1"+s[:len(s)-1]+string([]byte{charset[x]}), "non-zero padding is rejected")
	case 1:
		sym.Reach("longer padding")
		if pad+5 >= 8 {
			// A whole zero byte: an empty record with type zero cut short.
			rejected("lno1"+s+"q", "a byte after the offer is rejected")
			return
		}
		rejected("lno1"+s+"q", "padding of a whole character is rejected")
	default:
		rejected("lno1"+s[:len(s)-1], "a cut string is rejected")
	}
}

// C14_Short: short strings of any bytes never panic and are rejected.
func C14_Short() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	s := []string{"", "lno1", "LNO1", "lno1qqqqq", "lno1pg"}[sym.Choose("start", 5)] + sym.String("any", sym.Choose("len", max+1))
	sym.Reach("short")
	rejected(s, "a string too short for an offer is rejected")
}
