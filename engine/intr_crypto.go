package main

import (
	"crypto/ed25519"
	"crypto/sha512"
	"fmt"
	"math/big"

	"filippo.io/edwards25519"
)

// Cryptographic primitives are idealised:
//   - hashes of concrete data are computed with the real function,
//   - hashes of symbolic data are fresh 256-bit values related to all other
//     applications on the path by "equal inputs <=> equal outputs" (no
//     collisions), never zero and never a constant with bytes 13 to 15 equal
//     (the hand-made identifiers of the harnesses),
//   - a signature verifies exactly if it was produced by Sign on the path for
//     the same key and message (unforgeability), concrete signatures are
//     verified with the real function.

func concBytes(cells []Value) ([]byte, bool) {
	b := make([]byte, len(cells))
	for i := range cells {
		if cells[i].P != nil {
			return nil, false
		}
		b[i] = byte(cells[i].N)
	}
	return b, true
}

func (m *Machine) bytesValue(b []byte) []Value {
	out := make([]Value, len(b))
	for i := range b {
		out[i].N = uint64(b[i])
	}
	return out
}

func (m *Machine) freshName(kind string) string {
	return fmt.Sprintf("%s!%d", kind, len(m.hashes))
}

// hashBytes applies an idealised hash with outLen bytes of output.
func (m *Machine) hashBytes(fn string, cells []Value, outLen int, real func([]byte) []byte) []Value {
	tb := m.tb
	w := uint16(outLen * 8)
	var out *Term
	b, conc := concBytes(cells)
	in := append([]Value(nil), cells...)
	if conc {
		out = tb.BigConst(w, new(big.Int).SetBytes(real(b)))
	}
	// an identical earlier application?
	for i := range m.hashes {
		h := &m.hashes[i]
		if h.fn != fn || len(h.in) != len(in) {
			continue
		}
		same := true
		for j := range in {
			if in[j] != h.in[j] {
				same = false
				break
			}
		}
		if same {
			return m.bytesOf(h.out, outLen)
		}
	}
	anySym := !conc
	for i := range m.hashes {
		if m.hashes[i].fn == fn && !m.hashes[i].conc {
			anySym = true
		}
	}
	if !conc {
		if m.noFork > 0 {
			if m.noFork >= mergeFork {
				panic(mergeFail{})
			}
			m.unsupported("symbolic hash during initialisation")
		}
		out = tb.Var(fmt.Sprintf("%s!%d", fn, len(m.hashes)), w)
	}
	if m.noFork > 0 {
		return m.bytesOf(out, outLen)
	}
	m.hashes = append(m.hashes, hashApp{fn: fn, in: in, out: out, conc: conc})
	if anySym {
		var ax = tb.True
		if !conc {
			ax = tb.Not(tb.Eq(out, tb.Const(w, 0)))
			if outLen == 32 {
				// hashes differ from hand-made identifiers, which the
				// harnesses write with bytes 13 to 15 equal
				o := m.bytesOf(out, outLen)
				a, b, c := m.term(o[13], 8), m.term(o[14], 8), m.term(o[15], 8)
				ax = tb.And(ax, tb.Not(tb.And(tb.Eq(a, b), tb.Eq(b, c))))
			}
		}
		for i := range m.hashes[:len(m.hashes)-1] {
			h := &m.hashes[i]
			if h.fn != fn || (h.conc && conc) {
				continue
			}
			eqOut := tb.Eq(h.out, out)
			if len(h.in) != len(in) {
				ax = tb.And(ax, tb.Not(eqOut))
				continue
			}
			if len(in) == 0 {
				continue
			}
			eqIn := tb.Eq(m.wide(h.in), m.wide(in))
			ax = tb.And(ax, tb.Eq(eqIn, eqOut))
		}
		m.assumeAxiom(ax)
	}
	return m.bytesOf(out, outLen)
}

// assumeAxiom adds a definitional constraint on fresh variables; it never
// makes a path infeasible by itself.
func (m *Machine) assumeAxiom(c *Term) {
	if c == m.tb.True {
		return
	}
	m.addPC(c)
	if m.model != nil && !m.model.evalBool(c) {
		m.model = nil
	}
}

type sigRec struct {
	pk, msg []Value
	sig     *Term // 512 bits
}

func (m *Machine) sigRecs() []*sigRec {
	r, _ := m.ext["sigs"].([]*sigRec)
	return r
}

func (m *Machine) edSign(priv, msg []Value) []Value {
	tb := m.tb
	pb, ok := concBytes(priv)
	if len(priv) != ed25519.PrivateKeySize {
		m.unsupported("signing with a private key of another length")
	}
	mb, conc := concBytes(msg)
	conc = conc && ok
	if conc && m.noFork > 0 {
		return m.bytesValue(ed25519.Sign(ed25519.PrivateKey(pb), mb))
	}
	if m.noFork > 0 {
		if m.noFork >= mergeFork {
			panic(mergeFail{})
		}
		m.unsupported("symbolic signature during initialisation")
	}
	recs := m.sigRecs()
	pk := append([]Value(nil), priv[32:]...)
	old := recs
	var sig *Term
	for _, r := range recs {
		if len(r.msg) == len(msg) && m.arrEqBytes(r.pk, pk) == tb.True && m.arrEqBytes(r.msg, msg) == tb.True {
			sig = r.sig
		}
	}
	if conc {
		sig = tb.BigConst(512, new(big.Int).SetBytes(ed25519.Sign(ed25519.PrivateKey(pb), mb)))
	}
	if sig == nil {
		sig = tb.Var(fmt.Sprintf("sig!%d", len(recs)), 512)
	}
	m.ext["sigs"] = append(append([]*sigRec(nil), recs...), &sigRec{pk, append([]Value(nil), msg...), sig})
	m.undoFn(func() { m.ext["sigs"] = old })
	// a signature is never all zero and its last byte has the top bits clear
	out := m.bytesOf(sig, 64)
	if conc {
		out = m.bytesValue(ed25519.Sign(ed25519.PrivateKey(pb), mb))
	}
	m.assumeAxiom(tb.And(tb.Not(tb.Eq(sig, tb.Const(512, 0))), tb.Eq(tb.Extract(m.term(out[63], 8), 7, 5), tb.Const(3, 0))))
	for _, r := range recs {
		if r.sig == sig {
			continue
		}
		eqIn := tb.False
		if len(r.msg) == len(msg) {
			eqIn = tb.And(m.arrEqBytes(r.pk, pk), m.arrEqBytes(r.msg, msg))
		}
		m.assumeAxiom(tb.Eq(eqIn, tb.Eq(r.sig, sig)))
	}
	return out
}

// edKey is the private key of a seed; different seeds have different keys.
func (m *Machine) edKey(seed []Value) []Value {
	if b, ok := concBytes(seed); ok && len(b) == 32 {
		return m.bytesValue(ed25519.NewKeyFromSeed(b))
	}
	if len(seed) != 32 {
		m.unsupported("key from a seed of another length")
	}
	pk := m.hashBytes("ed25519", seed, 32, func(b []byte) []byte { return ed25519.NewKeyFromSeed(b)[32:] })
	return append(append([]Value(nil), seed...), pk...)
}

func (m *Machine) arrEqBytes(a, b []Value) *Term {
	if len(a) != len(b) {
		return m.tb.False
	}
	if len(a) == 0 {
		return m.tb.True
	}
	return m.arrEq(tUint8, a, b)
}

func (m *Machine) edVerify(pk, msg, sig []Value, native func(pk, msg, sig []byte) bool) *Term {
	tb := m.tb
	if len(pk) != 32 || len(sig) != 64 {
		return tb.False
	}
	a, ok1 := concBytes(pk)
	b, ok2 := concBytes(msg)
	c, ok3 := concBytes(sig)
	r := tb.False
	if ok1 && ok2 && ok3 {
		r = tb.Bool(native(a, b, c))
	}
	for _, s := range m.sigRecs() {
		if len(s.msg) != len(msg) {
			continue
		}
		r = tb.Or(r, tb.And(tb.And(m.arrEqBytes(s.pk, pk), m.arrEqBytes(s.msg, msg)), tb.Eq(s.sig, m.wide(sig))))
	}
	return r
}

func init() {
	sum := func(size int, real func([]byte) []byte) IntrFn {
		return func(m *Machine, c *callCtx, a []Value) Value {
			return Value{P: &Agg{m.hashBytes("blake2b"+fmt.Sprint(size*8), m.sliceOf(a[0]), size, real)}}
		}
	}
	reg("golang.org/x/crypto/blake2b.Sum256", sum(32, func(b []byte) []byte { h := blake2bSum256(b); return h[:] }))
	verify := func(m *Machine, c *callCtx, a []Value) Value {
		return tv(m.edVerify(m.sliceOf(a[0]), m.sliceOf(a[1]), m.sliceOf(a[2]), func(pk, msg, sig []byte) bool {
			return ed25519.Verify(ed25519.PublicKey(pk), msg, sig)
		}))
	}
	// hive.go verifies per ZIP-215
	verifyZIP215 := func(m *Machine, c *callCtx, a []Value) Value {
		return tv(m.edVerify(m.sliceOf(a[0]), m.sliceOf(a[1]), m.sliceOf(a[2]), zip215))
	}
	sign := func(m *Machine, c *callCtx, a []Value) Value {
		return Value{P: &Slice{m.edSign(m.sliceOf(a[0]), m.sliceOf(a[1]))}}
	}
	newKey := func(m *Machine, c *callCtx, a []Value) Value {
		return Value{P: &Slice{m.edKey(m.sliceOf(a[0]))}}
	}
	defer reg("github.com/iotaledger/hive.go/crypto/ed25519.Verify", verifyZIP215)
	for _, p := range []string{"crypto/ed25519", "golang.org/x/crypto/ed25519", "github.com/iotaledger/hive.go/crypto/ed25519", "github.com/iotaledger/iota-crypto-demo/pkg/ed25519"} {
		reg(p+".Verify", verify)
		reg(p+".Sign", sign)
		reg(p+".NewKeyFromSeed", newKey)
		reg(p+".GenerateKey", func(m *Machine, c *callCtx, a []Value) Value {
			n, _ := m.ext["generated"].(int)
			m.ext["generated"] = n + 1
			m.undoFn(func() { m.ext["generated"] = n })
			seed := m.bytesOf(m.tb.Var(fmt.Sprintf("generated!%d", n), 256), 32)
			if n >= 3 { // draws that are repeated until they suit end
				seed[0] = tv(m.tb.BOr(m.term(seed[0], 8), m.tb.Const(8, 1)))
			}
			key := m.edKey(seed)
			return Value{P: &Agg{[]Value{{P: &Slice{append([]Value(nil), key[32:]...)}}, {P: &Slice{key}}, {}}}}
		})
	}
}

// zip215 verifies a concrete signature with the cofactored equation.
func zip215(pk, msg, sig []byte) bool {
	if len(pk) != 32 || len(sig) != 64 || sig[63]&224 != 0 {
		return false
	}
	A, err := new(edwards25519.Point).SetBytes(pk)
	R, err2 := new(edwards25519.Point).SetBytes(sig[:32])
	s, err3 := new(edwards25519.Scalar).SetCanonicalBytes(sig[32:])
	if err != nil || err2 != nil || err3 != nil {
		return false
	}
	h := sha512.New()
	h.Write(sig[:32])
	h.Write(pk)
	h.Write(msg)
	k, _ := new(edwards25519.Scalar).SetUniformBytes(h.Sum(nil))
	p := new(edwards25519.Point).VarTimeDoubleScalarBaseMult(k, new(edwards25519.Point).Negate(A), s)
	return p.Subtract(p, R).MultByCofactor(p).Equal(edwards25519.NewIdentityPoint()) == 1
}
