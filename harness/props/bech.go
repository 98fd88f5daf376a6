package props

import (
	"strings"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/bech32"
	"verif/harness/nd"
)

const bechChars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// bechSum is the BIP-173 checksum state after the given 5-bit values.
func bechSum(hrp string, values []byte) uint32 {
	var all []byte
	for i := 0; i < len(hrp); i++ {
		all = append(all, hrp[i]>>5)
	}
	all = append(all, 0)
	for i := 0; i < len(hrp); i++ {
		all = append(all, hrp[i]&31)
	}
	c := uint32(1)
	for _, v := range append(all, values...) {
		top := c >> 25
		c = c&0x1ffffff<<5 ^ uint32(v)
		for i, g := range [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3} {
			if top>>i&1 == 1 {
				c ^= g
			}
		}
	}
	return c
}

// bech32String is the BIP-173 encoding of data with a lower case prefix.
func bech32String(hrp string, data []byte) string {
	var values []byte
	acc, n := uint32(0), 0
	for _, b := range data {
		acc = (acc<<8 | uint32(b)) & 0xfff
		for n += 8; n >= 5; n -= 5 {
			values = append(values, byte(acc>>(n-5))&31)
		}
	}
	if n > 0 {
		values = append(values, byte(acc<<(5-n))&31)
	}
	c := bechSum(hrp, append(append([]byte(nil), values...), 0, 0, 0, 0, 0, 0)) ^ 1
	for i := 5; i >= 0; i-- {
		values = append(values, byte(c>>(5*i))&31)
	}
	s := []byte(hrp + "1")
	for _, v := range values {
		s = append(s, bechChars[v])
	}
	return string(s)
}

var _ = nd.Reg("H_bech32_encode", H_bech32_encode)

// H_bech32_encode: data of any length and content is encoded per BIP-173 and
// decodes to itself.
func H_bech32_encode() {
	hrp := []string{"iota", "rms", "a", "1a1", "!~", "IOTA", "Iota", "", "a b", "\x7f", strings.Repeat("h", 83), strings.Repeat("h", 84)}[nd.Choice("hrp", 12)]
	data := make([]byte, nd.Choice("length", 12)*(1+nd.Choice("factor", 2)*5))
	for i := range data {
		data[i] = byte(i*7 + 3)
	}
	for i := 0; i < 2 && i < len(data); i++ {
		data[i*(len(data)-1)] = nd.U8("data")
	}
	s, err := bech32.Encode(hrp, data)
	lower := strings.ToLower(hrp)
	ok := hrp != "Iota" && hrp != "" && hrp != "a b" && hrp != "\x7f" && len(hrp)+1+(len(data)*8+4)/5+6 <= 90
	nd.Assert((err == nil) == ok, "valid prefixes are accepted up to 90 characters")
	if err != nil {
		nd.Cover("invalid")
		return
	}
	want := bech32String(lower, data)
	if hrp != lower {
		nd.Assert(s == strings.ToUpper(want), "upper case prefixes make upper case strings")
	} else {
		nd.Assert(s == want, "the encoding is that of BIP-173")
	}
	h, d, err := bech32.Decode(s)
	nd.Assert(err == nil && h == lower && eqBytes(d, data), "encodings decode to prefix and data")
	nd.Cover("encoded")
}

var _ = nd.Reg("H_bech32_decode", H_bech32_decode)

// H_bech32_decode: only encodings decode.
func H_bech32_decode() {
	b := []byte("io1" + strings.Repeat("q", 6+nd.Choice("length", 5)))
	if maybe("upper") {
		b = []byte(strings.ToUpper(string(b)))
	}
	x := nd.Bytes("bytes", 2+nd.Tier())
	for _, v := range x {
		nd.Assume(v < 128)
	}
	copy(b[nd.Choice("at", len(b)-len(x)+1):], x)
	// the remaining checksum characters are free
	y := nd.Bytes("checksum", 6)
	for _, v := range y {
		nd.Assume(v >= '0' && v <= 'z')
	}
	copy(b[len(b)-6:], y)
	checkBech32(string(b))
}

func checkBech32(s string) {
	h, d, err := bech32.Decode(s)
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	t := bech32String(h, d)
	nd.Assert(s == t || s == strings.ToUpper(t), "accepted strings are the encoding of their content")
}

var _ = nd.Reg("H_bech32_padding", H_bech32_padding)

// H_bech32_padding: strings of any number of characters with the right
// checksum decode exactly if the bits after the last byte are fewer than five
// and zero.
func H_bech32_padding() {
	n := nd.Choice("characters", 19+40*nd.Tier())
	values := make([]byte, n)
	for i := range values {
		values[i] = byte(i*7+3) & 31
	}
	for i := n - 1; i >= 0 && i >= n-2; i-- {
		values[i] = nd.U8("value")
		nd.Assume(values[i] < 32)
	}
	c := bechSum("rms", append(append([]byte(nil), values...), 0, 0, 0, 0, 0, 0)) ^ 1
	s := []byte("rms1")
	for _, v := range values {
		s = append(s, bechChars[v])
	}
	for i := 5; i >= 0; i-- {
		s = append(s, bechChars[byte(c>>(5*i))&31])
	}
	pad := n * 5 % 8
	want := pad < 5 && (n == 0 || values[n-1]&byte(1<<pad-1) == 0)
	h, d, err := bech32.Decode(string(s))
	nd.Assert((err == nil) == want, "only zero padding decodes")
	if err == nil {
		nd.Cover("accepted")
		nd.Assert(h == "rms" && len(d) == n*5/8 && bech32String(h, d) == string(s), "accepted strings are the encoding of their content")
	} else {
		nd.Cover("rejected")
	}
}

var _ = nd.Reg("H_bech32_errors", H_bech32_errors)

// H_bech32_errors: strings with changed characters are rejected.
func H_bech32_errors() {
	data := make([]byte, 6+27*nd.Tier())
	for i := range data {
		data[i] = byte(i*29 + 3)
	}
	s := bech32String("iota", data)
	if maybe("upper") {
		s = strings.ToUpper(s)
	}
	b := []byte(s)
	i := nd.Choice("first", len(b)-1)
	b[i+1+nd.Choice("second", len(b)-i-1)] = nd.U8("byte2")
	b[i] = nd.U8("byte")
	for _, v := range b {
		nd.Assume(v < 128)
	}
	_, _, err := bech32.Decode(string(b))
	nd.Assert((err == nil) == (string(b) == s), "changed strings are rejected")
	nd.Cover("done")
}

var _ = nd.Reg("H_bech32_unicode", H_bech32_unicode)

// H_bech32_unicode: characters outside ASCII are rejected wherever they stand.
func H_bech32_unicode() {
	data := []byte{0xb5, 0x96, 0xb5, 0xad, 0x6b} // letters whose case folds specially
	s := bech32String("kis", data)
	if maybe("upper") {
		s = strings.ToUpper(s)
	}
	i := nd.Choice("at", len(s))
	r := []string{"\u212a", "\u017f", "\u0130", "\u0131", "\u00e9", "\xff", "\x00", " ", "\x7f", "\uffff"}[nd.Choice("rune", 10)]
	_, _, err := bech32.Decode(s[:i] + r + s[i+1:])
	nd.Assert(err != nil, "foreign characters are rejected")
	nd.Cover("done")
}

var _ = nd.Reg("H_address_bech32", H_address_bech32)

// H_address_bech32: the string of an address parses to the address.
func H_address_bech32() {
	a := anyAddress("address", 8)
	s := a.Bech32("rms")
	nd.Assert(s == bech32String("rms", a.ID()), "the string encodes the ID of the address")
	hrp, b, err := iotago.ParseBech32(s)
	nd.Assert(err == nil && hrp == "rms", "the string of an address parses")
	var want iotago.Address = a
	ref := func(a iotago.Address) iotago.Address {
		if m, is := a.(*iotago.MultiAddress); is {
			return iotago.NewMultiAddressReferenceFromMultiAddress(m)
		}
		return a
	}
	if r, is := a.(*iotago.RestrictedAddress); is {
		want = &iotago.RestrictedAddress{Address: ref(r.Address), AllowedCapabilities: r.AllowedCapabilities}
	} else {
		want = ref(a)
	}
	nd.Assert(b.Equal(want) && want.Equal(b) && b.Type() == a.Type() && b.Key() == a.Key(), "the string of an address parses to the address")
	nd.Assert(b.Bech32("rms") == s, "the parsed address has the same string")
	nd.Cover("done")
}

var _ = nd.Reg("H_address_parse", H_address_parse)

// H_address_parse: only strings of addresses parse.
func H_address_parse() {
	n := []int{0, 1, 2, 33, 34, 35, 36, 37, 38}[nd.Choice("length", 9)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i*7 + 1)
	}
	if n > 0 {
		data[0] = nd.U8("type")
	}
	if n > 1 {
		data[1] = nd.U8("inner")
	}
	for i := 34; i < n; i++ {
		data[i] = nd.U8("tail")
	}
	s := bech32String("rms", data)
	_, a, err := iotago.ParseBech32(s)
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	nd.Assert(eqBytes(a.ID(), data), "what parses is the ID of the address")
	if r, is := a.(*iotago.RestrictedAddress); is {
		nd.Cover("restricted")
		c := r.AllowedCapabilities
		nd.Assert(len(c) <= 2 && (len(c) == 0 || c[len(c)-1] != 0), "parsed capabilities are well-formed")
	}
}
