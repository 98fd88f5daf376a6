package props

import (
	"math/big"
	"reflect"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

// smash changes in place everything that can be reached from v.
func smashAll(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if b, is := v.Interface().(*big.Int); is {
			b.Add(b, big.NewInt(1))
			return
		}
		smashAll(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			smashAll(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name != "API" && v.Type().Field(i).PkgPath == "" {
				smashAll(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			smashAll(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			smashAll(v.MapIndex(k))
		}
		if v.Len() > 0 {
			v.SetMapIndex(v.MapKeys()[0], reflect.Value{})
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 1)
		}
	}
}

var _ = nd.Reg("H_clone_tx", H_clone_tx)

// H_clone_tx: copies of transactions, payloads and signatures share nothing.
func H_clone_tx() {
	api := newAPI()
	x := richTx(api)
	for k := 1; k < 6; k++ {
		x.Transaction.Outputs = append(x.Transaction.Outputs, richOutput(k))
	}
	x.Unlocks[2] = &iotago.MultiUnlock{Unlocks: append(x.Unlocks[2].(*iotago.MultiUnlock).Unlocks, &iotago.AnchorUnlock{Reference: 1}, &iotago.NFTUnlock{Reference: 2})}
	var p, c iotago.Payload
	switch nd.Choice("kind", 4) {
	case 3:
		c = (&iotago.CandidacyAnnouncement{}).Clone()
		_, is := c.(*iotago.CandidacyAnnouncement)
		nd.Assert(is, "copies of announcements are announcements")
		return
	case 0:
		p = x
		c = x.Clone()
		nd.Assert(c.(*iotago.SignedTransaction).API == api && c.(*iotago.SignedTransaction).Transaction.API == api, "copies have the same API")
	case 1:
		p = x
		c = &iotago.SignedTransaction{API: api, Transaction: x.Transaction.Clone(), Unlocks: x.Unlocks.Clone()}
	case 2:
		p = &iotago.TaggedData{Tag: []byte{1, 2}, Data: []byte{3}}
		c = p.Clone()
	}
	e := must(api.Encode(p))
	nd.Assert(eqBytes(must(api.Encode(c)), e), "copies of payloads have the same encoding")
	smashAll(reflect.ValueOf(c))
	nd.Assert(eqBytes(must(api.Encode(p)), e), "changing a copy leaves the payload alone")
	nd.Cover("done")
}

var _ = nd.Reg("H_equal_output", H_equal_output)

// H_equal_output: outputs are equal exactly if their encodings are, copies are
// equal and share nothing.
func H_equal_output() {
	api := newAPI()
	k := nd.Choice("kind", 6)
	o := richOutput(k)
	e := must(api.Encode(o, serix.WithValidation()))
	b := append([]byte{}, e...)
	mutate(b, 2+2*nd.Tier(), 2-nd.Tier())
	y := emptyOutput(k)
	n, err := api.Decode(b, y, serix.WithValidation())
	if err != nil {
		nd.Cover("invalid")
		return
	}
	b = b[:n]
	same := eqBytes(e, b)
	if same {
		nd.Cover("same")
	} else {
		nd.Cover("different")
	}
	nd.Assert(o.Equal(y) == same && y.Equal(o) == same, "outputs are equal when their encodings are")
	c := y.Clone()
	nd.Assert(y.Equal(c) && c.Equal(y), "copies of outputs are equal")
	nd.Assert(eqBytes(must(api.Encode(c)), b), "copies of outputs have the same encoding")
	smashAll(reflect.ValueOf(c))
	nd.Assert(eqBytes(must(api.Encode(y)), b), "changing a copy leaves the output alone")
}

var _ = nd.Reg("H_equal_parts", H_equal_parts)

// H_equal_parts: outputs with and without parts.
func H_equal_parts() {
	api := newAPI()
	k, l := nd.Choice("kind", 6), nd.Choice("other", 6)
	o, p := richOutput(k), richOutput(l)
	strip := func(o iotago.TxEssenceOutput, name string) {
		n := nd.Choice(name, 4)
		switch o := o.(type) {
		case *iotago.BasicOutput:
			o.Features = o.Features[:n]
			o.UnlockConditions = o.UnlockConditions[:1+n%2]
		case *iotago.AccountOutput:
			o.Features = o.Features[:n]
			o.ImmutableFeatures = o.ImmutableFeatures[:n%2]
		case *iotago.AnchorOutput:
			o.Features = o.Features[:n%2]
			o.ImmutableFeatures = o.ImmutableFeatures[:n/2]
		case *iotago.FoundryOutput:
			o.Features = o.Features[:n%2]
			o.ImmutableFeatures = o.ImmutableFeatures[:n/2]
		case *iotago.NFTOutput:
			o.Features = o.Features[:n%2]
			o.ImmutableFeatures = o.ImmutableFeatures[:n/2]
		}
	}
	strip(o, "n")
	strip(p, "m")
	same := eqBytes(must(api.Encode(o)), must(api.Encode(p)))
	nd.Assert(o.Equal(p) == same && p.Equal(o) == same, "outputs are equal when their encodings are")
	nd.Cover("done")
}
