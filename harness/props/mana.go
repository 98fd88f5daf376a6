package props

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

var _ = nd.Reg("H_mana_decay", H_mana_decay)

// H_mana_decay: decay by epochs equals repeated fixed point multiplication by
// the table, never increases and is monotone, for every 64-bit mana value.
func H_mana_decay() {
	api := newAPI()
	p := api.ManaDecayProvider()
	fs := api.ProtocolParameters().ManaParameters().DecayFactors
	exp := api.ProtocolParameters().ManaParameters().DecayFactorsExponent
	n := iotago.EpochIndex(len(fs))
	diffs := []iotago.EpochIndex{0, 1, 2, 7, n - 1, n, n + 1, 2*n + 3}
	diff := diffs[nd.Choice("diff", len(diffs))]
	mana := nd.U64("mana")
	start := iotago.EpochIndex(nd.U32("epoch"))
	nd.Assume(start < 1<<31)
	got, err := p.DecayManaByEpochs(iotago.Mana(mana), start, start+diff)
	nd.Assert(err == nil, "decay succeeds")
	hi, lo := mana>>32, mana&0xffffffff
	rounds := 0
	for left := diff; left > 0; {
		step := min(left, n)
		hi, lo = mulShift2(hi, lo, uint64(fs[step-1]), uint(exp))
		left -= step
		rounds++
	}
	want := hi<<32 | lo
	if rounds == 1 {
		want = mulShift(mana, uint64(fs[min(diff, n)-1]), uint(exp))
	}
	nd.Observe("mana", uint64(got))
	nd.Assert(uint64(got) == want, "decay is the table's fixed point product")
	nd.Assert(uint64(got) <= mana, "decay never increases mana")
	nd.Cover("done")
}

var _ = nd.Reg("H_mana_decay_any", H_mana_decay_any)

// H_mana_decay_any: decay over any number of epochs within the table, between
// any two slots.
func H_mana_decay_any() {
	api := newAPI()
	p, tp := api.ManaDecayProvider(), api.TimeProvider()
	fs := api.ProtocolParameters().ManaParameters().DecayFactors
	mana := nd.U64("mana")
	a := iotago.SlotIndex(nd.U32("created"))
	nd.Assume(a < 1<<31)
	ea := tp.EpochFromSlot(a)
	diffs := []iotago.EpochIndex{0, 1, 2, 3, 17, iotago.EpochIndex(len(fs))}
	diff := diffs[nd.Choice("diff", len(diffs))]
	b := tp.EpochStart(ea+diff) + iotago.SlotIndex(nd.Range64("offset", 0, uint64(tp.EpochDurationSlots()-1)))
	got, err := p.DecayManaBySlots(iotago.Mana(mana), a, b)
	nd.Assert(err == nil, "decay succeeds")
	if diff == 0 {
		nd.Cover("same epoch")
		nd.Assert(uint64(got) == mana, "no decay within an epoch")
		return
	}
	nd.Cover("later epoch")
	hi, lo := mulShift2(mana>>32, mana&0xffffffff, uint64(fs[diff-1]), 32)
	nd.Assert(uint64(got) == hi<<32|lo, "decay uses the table entry of the epoch difference")
	_, err = p.DecayManaBySlots(iotago.Mana(mana), b, a)
	nd.Assert(err != nil, "decay into the past is refused")
}

var _ = nd.Reg("H_mana_decay_long", H_mana_decay_long)

// H_mana_decay_long: decay goes on however often the table is passed through; here
// an epoch leaves half of the mana, so that what is left is a shift.
func H_mana_decay_long() {
	n := nd.Choice("table", 3) + 1
	mp := &iotago.ManaParameters{BitsCount: 63, DecayFactorsExponent: 32, DecayFactors: []uint32{1 << 31, 1 << 30, 1 << 29}[:n]}
	p := iotago.NewManaDecayProvider(iotago.NewTimeProvider(0, 1690879505, 10, 4), 4, mp)
	times := []int{0, 2, 3, 8, 31, 32, 63, 64, 127, 128, 255, 256, 257, 300, 65535, 65536}
	diff := n*times[nd.Choice("times", len(times))] + nd.Choice("more", n)
	mana := nd.U64("mana")
	got, err := p.DecayManaByEpochs(iotago.Mana(mana), 7, 7+iotago.EpochIndex(diff))
	nd.Assert(err == nil, "decay succeeds")
	want := uint64(0)
	if diff < 64 {
		want = mana >> diff
	}
	nd.Assert(uint64(got) == want, "every epoch halves the mana")
	nd.Cover("done")
}

var _ = nd.Reg("H_mana_generate_amounts", H_mana_generate_amounts)

// H_mana_generate_amounts: generated and decayed mana between two slots is what
// the specification's formula says, for every amount up to the supply.
func H_mana_generate_amounts() {
	api := newAPI()
	amount := nd.U64("amount")
	nd.Assume(amount <= uint64(api.ProtocolParameters().TokenSupply()))
	n := len(api.ProtocolParameters().ManaParameters().DecayFactors)
	diffs := []int{0, 1, 2, n + 1, 3, n, n + 2}
	k := 4
	if nd.Tier() > 0 {
		k = len(diffs)
	}
	diff := iotago.EpochIndex(diffs[nd.Choice("diff", k)])
	d := uint64(api.TimeProvider().EpochDurationSlots())
	offsA, offsB := []uint64{1, d / 2, 0, d - 1}, []uint64{0, d - 1, d / 2, 1}
	n = 2 + 2*nd.Tier()
	if diff > 1 && nd.Tier() == 0 {
		n = 1
	}
	manaGenerate(api, amount, 5, diff, offsA[nd.Choice("offA", n)], offsB[nd.Choice("offB", n)])
}

var _ = nd.Reg("H_mana_generate_slots", H_mana_generate_slots)

// H_mana_generate_slots: the same for every pair of slots.
func H_mana_generate_slots() {
	exp := uint8(3)
	if nd.Tier() > 0 {
		exp = 6
	}
	api := iotago.V3API(paramsWithEpochs(exp))
	supply := uint64(api.ProtocolParameters().TokenSupply())
	amounts := []uint64{1_000_003, supply, supply/3 + 7}
	amount := amounts[nd.Choice("amount", 2+nd.Tier())]
	n := len(api.ProtocolParameters().ManaParameters().DecayFactors)
	diffs := []int{0, 1, 2, n + 1}
	diff := iotago.EpochIndex(diffs[nd.Choice("diff", len(diffs))])
	d := uint64(api.TimeProvider().EpochDurationSlots())
	offA, offB := nd.Range64("offA", 0, d-1), d-1
	if diff < 2 || nd.Tier() > 0 {
		offB = nd.Range64("offB", 0, d-1)
	}
	manaGenerate(api, amount, 0, diff, offA, offB)
}

func manaGenerate(api iotago.API, amount uint64, base, diff iotago.EpochIndex, offA, offB uint64) {
	manaGenerateWith(api.ManaDecayProvider(), api.TimeProvider(), api.ProtocolParameters().ManaParameters(), api.ProtocolParameters().SlotsPerEpochExponent(), amount, base, diff, offA, offB)
}

var _ = nd.Reg("H_mana_parameters", H_mana_parameters)

// H_mana_parameters: the same with other rates, tables and exponents.
func H_mana_parameters() {
	sets := []iotago.ManaParameters{
		{BitsCount: 63, GenerationRate: 3, GenerationRateExponent: 27, DecayFactors: []uint32{16641330, 16506506, 16372774, 16240127}, DecayFactorsExponent: 24, DecayFactorEpochsSum: 2060891, DecayFactorEpochsSumExponent: 14},
		{BitsCount: 60, GenerationRate: 200, GenerationRateExponent: 36, DecayFactors: []uint32{15, 14}, DecayFactorsExponent: 4, DecayFactorEpochsSum: 255, DecayFactorEpochsSumExponent: 4},
		{BitsCount: 63, GenerationRate: 0, GenerationRateExponent: 20, DecayFactors: []uint32{2130000000, 2120000000, 2100000000}, DecayFactorsExponent: 31, DecayFactorEpochsSum: 255, DecayFactorEpochsSumExponent: 4},
	}
	mp := sets[nd.Choice("parameters", len(sets))]
	tp := iotago.NewTimeProvider(0, 1690879505, 10, 4)
	diff := iotago.EpochIndex(nd.Choice("diff", 6))
	amount := []uint64{1_000_003, 1_813_620_509_061_365}[nd.Choice("amount", 2)]
	manaGenerateWith(iotago.NewManaDecayProvider(tp, 4, &mp), tp, &mp, 4, amount, 3, diff, nd.Range64("offA", 0, 15), nd.Range64("offB", 0, 15))
}

func manaGenerateWith(p *iotago.ManaDecayProvider, tp *iotago.TimeProvider, mp *iotago.ManaParameters, spe uint8, amount uint64, base, diff iotago.EpochIndex, offA, offB uint64) {
	fs := mp.DecayFactors
	n := iotago.EpochIndex(len(fs))
	d := uint64(tp.EpochDurationSlots())
	a := tp.EpochStart(base) + iotago.SlotIndex(offA)
	b := tp.EpochStart(base+diff) + iotago.SlotIndex(offB)
	got, err := p.GenerateManaAndDecayBySlots(iotago.BaseToken(amount), a, b)
	if a > b {
		nd.Cover("backwards")
		nd.Assert(err != nil, "generation into the past is refused")
		return
	}
	nd.Assert(err == nil, "generation succeeds")
	rate, rexp := uint64(mp.GenerationRate), uint(mp.GenerationRateExponent)
	mul := func(f uint64, s uint) uint64 {
		hi, lo := mulShift2(amount>>32, amount&0xffffffff, f, min(s, 32))
		return (hi<<32 | lo) >> (s - min(s, 32))
	}
	gen := func(slots uint64) uint64 { return mul(slots*rate, rexp) }
	decay := func(v uint64, k iotago.EpochIndex) uint64 {
		hi, lo := v>>32, v&0xffffffff
		for k > 0 {
			s := min(k, n)
			hi, lo = mulShift2(hi, lo, uint64(fs[s-1]), uint(mp.DecayFactorsExponent))
			k -= s
		}
		return hi<<32 | lo
	}
	var want uint64
	switch {
	case diff == 0:
		nd.Cover("same epoch")
		want = gen(offB - offA)
	case diff == 1:
		nd.Cover("next epoch")
		want = decay(gen(d-offA), 1) + gen(offB)
	default:
		nd.Cover("later")
		s := uint(mp.DecayFactorEpochsSumExponent) + rexp - uint(spe)
		f := uint64(mp.DecayFactorEpochsSum) * rate
		c := mul(f, s)
		want = decay(gen(d-offA), diff) + (c - decay(c, diff-1)) + gen(offB) - c>>mp.DecayFactorsExponent
	}
	nd.Observe("mana", uint64(got))
	nd.Assert(uint64(got) == want, "generated mana")
	nd.Cover("done")
}
