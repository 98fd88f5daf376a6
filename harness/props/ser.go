package props

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

var _ = nd.Reg("H_ser_basic", H_ser_basic)

func H_ser_basic() {
	api := iotago.V3API(iotago.NewV3SnapshotProtocolParameters())
	var addr iotago.Ed25519Address
	nd.Fill("addr", addr[:])
	o := &iotago.BasicOutput{
		Amount: iotago.BaseToken(nd.U64("amount")),
		Mana:   iotago.Mana(nd.U64("mana")),
		UnlockConditions: iotago.BasicOutputUnlockConditions{
			&iotago.AddressUnlockCondition{Address: &addr},
		},
		Features: iotago.BasicOutputFeatures{},
	}
	b, err := api.Encode(o)
	nd.Dump(b)
	nd.Dump(err)
	if err != nil {
		nd.Trace("err")
		nd.Trace(err.Error())
	}
	nd.Assert(err == nil, "encode")
	nd.Cover("encoded")
	nd.ObserveBytes("b", b)
	o2 := &iotago.BasicOutput{}
	n, err := api.Decode(b, o2)
	nd.Assert(err == nil, "decode")
	nd.Assert(n == len(b), "consumed")
	nd.Assert(o2.Amount == o.Amount && o2.Mana == o.Mana, "fields")
	nd.Assert(o.Equal(o2), "equal")
	nd.Assert(o.Size() == len(b), "size")
	nd.Cover("done")
}

func H_dec_basic() {
	api := iotago.V3API(iotago.NewV3SnapshotProtocolParameters())
	b := nd.Bytes("b", 60)
	o2 := &iotago.BasicOutput{}
	n, err := api.Decode(b, o2)
	nd.Cover("done")
	if err != nil {
		nd.Cover("err")
		return
	}
	nd.Cover("ok")
	nd.Assert(n <= len(b), "consumed")
	b2, err := api.Encode(o2)
	nd.Assert(err == nil, "encode")
	nd.Assert(len(b2) == n, "len")
	for i := range b2 {
		nd.Assert(b[i] == b2[i], "canonical")
	}
}

var _ = nd.Reg("H_dec_basic", H_dec_basic)
