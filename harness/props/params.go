package props

import (
	"time"

	"github.com/iotaledger/hive.go/runtime/options"
	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

// numbers collects values and what they look like on the wire.
type numbers struct {
	side string
	wire []byte
}

func (n *numbers) u8(name string) uint8 {
	v := nd.U8(n.side + name)
	n.wire = append(n.wire, v)
	return v
}

func (n *numbers) le(v uint64, size int) {
	for i := 0; i < size; i++ {
		n.wire = append(n.wire, byte(v>>(8*i)))
	}
}

func (n *numbers) u16(name string) uint16 {
	v := nd.U16(n.side + name)
	n.le(uint64(v), 2)
	return v
}

func (n *numbers) u32(name string) uint32 {
	v := nd.U32(n.side + name)
	n.le(uint64(v), 4)
	return v
}

func (n *numbers) u64(name string) uint64 {
	v := nd.U64(n.side + name)
	n.le(v, 8)
	return v
}

func (n *numbers) text(name string, size int) string {
	b := nd.Bytes(n.side+name, size)
	for _, c := range b {
		nd.Assume(c < 128)
	}
	n.wire = append(n.wire, byte(size))
	n.wire = append(n.wire, b...)
	return string(b)
}

// anyParams are parameters with every number symbolic, and their wire format.
func anyParams(side string, name, hrp, factors int) (*iotago.V3ProtocolParameters, []byte) {
	n := &numbers{side: side}
	n.le(0, 1) // type of the parameters
	p := &iotago.V3ProtocolParameters{}
	iotago.WithVersion(iotago.Version(n.u8("version")))(p)
	iotago.WithNetworkOptions(n.text("network", name), iotago.NetworkPrefix(n.text("hrp", hrp)))(p)
	cost, data := n.u64("storageCost"), n.u8("factorData")
	iotago.WithStorageOptions(iotago.BaseToken(cost), iotago.StorageScoreFactor(data), iotago.StorageScore(n.u64("outputOverhead")), iotago.StorageScore(n.u64("offsetKey")), iotago.StorageScore(n.u64("offsetStaking")), iotago.StorageScore(n.u64("offsetDelegation")))(p)
	var w [10]iotago.WorkScore
	for i, k := range []string{"dataByte", "block", "input", "contextInput", "output", "nativeToken", "staking", "blockIssuer", "allotment", "signature"} {
		w[i] = iotago.WorkScore(n.u32(k))
	}
	iotago.WithWorkScoreOptions(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9])(p)
	bits, rate, rateExp := n.u8("bitsCount"), n.u8("rate"), n.u8("rateExponent")
	n.le(uint64(factors), 2)
	var table []uint32
	for i := 0; i < factors; i++ {
		table = append(table, n.u32("decayFactor"))
	}
	factorsExp := n.u8("factorsExponent")
	sum := n.u32("epochsSum")
	sumExp, annual := n.u8("epochsSumExponent"), n.u8("annualFactor")
	iotago.WithSupplyOptions(iotago.BaseToken(n.u64("supply")), bits, rate, rateExp, factorsExp, sumExp, annual)(p)
	p.ManaParameters().DecayFactors = table
	p.ManaParameters().DecayFactorEpochsSum = sum
	iotago.WithTimeProviderOptions(iotago.SlotIndex(n.u32("genesisSlot")), int64(n.u64("genesisTime")), n.u8("slotDuration"), n.u8("slotsPerEpoch"))(p)
	iotago.WithStakingOptions(iotago.EpochIndex(n.u32("unbonding")), n.u8("validationBlocks"), iotago.EpochIndex(n.u32("punishment")))(p)
	iotago.WithLivenessOptions(n.u16("livenessLower"), n.u16("livenessUpper"), iotago.SlotIndex(n.u32("minAge")), iotago.SlotIndex(n.u32("maxAge")), iotago.SlotIndex(n.u32("nearing")))(p)
	iotago.WithCongestionControlOptions(iotago.Mana(n.u64("minCost")), iotago.Mana(n.u64("increase")), iotago.Mana(n.u64("decrease")), iotago.WorkScore(n.u32("increaseThreshold")), iotago.WorkScore(n.u32("decreaseThreshold")), iotago.WorkScore(n.u32("schedulerRate")), n.u32("buffer"), n.u32("validationBuffer"))(p)
	iotago.WithVersionSignalingOptions(n.u8("windowSize"), n.u8("windowRatio"), n.u8("activation"))(p)
	margin := n.u8("profitMargin")
	boot := n.u32("bootstrapping")
	ratio := n.u8("rewardRatio")
	initial, final := n.u64("initialRate"), n.u64("finalRate")
	pool := n.u8("poolExponent")
	iotago.WithRewardsOptions(margin, pool, ratio, n.u16("retention"))(p)
	r := p.RewardsParameters()
	r.BootstrappingDuration, r.InitialTargetRewardsRate, r.FinalTargetRewardsRate = iotago.EpochIndex(boot), iotago.Mana(initial), iotago.Mana(final)
	iotago.WithTargetCommitteeSize(n.u8("committee"))(p)
	iotago.WithChainSwitchingThreshold(n.u8("switching"))(p)
	return p, n.wire
}

var _ = nd.Reg("H_params_wire", H_params_wire)

// H_params_wire: parameters have the documented encoding, and reading it gives
// them back.
func H_params_wire() {
	p, wire := anyParams("", 1+nd.Choice("name", 2), 3, nd.Choice("factors", 3))
	b := must(p.Bytes())
	nd.Assert(eqBytes(b, wire), "encoding of the parameters")
	nd.Assert(must(p.Hash()) == iotago.IdentifierFromData(wire), "hash of the parameters")
	// more bytes are left alone
	q, n, err := iotago.ProtocolParametersFromBytes(append(append([]byte{}, wire...), 1, 2))
	nd.Assert(err == nil && n == len(wire), "parameters are read from their encoding")
	nd.Assert(p.Equals(q) && q.Equals(p), "read parameters are equal")
	nd.Assert(eqBytes(must(q.Bytes()), wire), "read parameters have the same encoding")
	nd.Assert(q.Version() == p.Version() && q.NetworkName() == p.NetworkName() && q.Bech32HRP() == p.Bech32HRP() && q.NetworkID() == iotago.NetworkIDFromString(p.NetworkName()), "network")
	nd.Assert(q.TokenSupply() == p.TokenSupply() && q.GenesisSlot() == p.GenesisSlot() && q.GenesisUnixTimestamp() == p.GenesisUnixTimestamp(), "genesis")
	nd.Assert(q.GenesisBlockID() == iotago.NewBlockID(p.GenesisSlot(), iotago.Identifier{}), "genesis block")
	nd.Assert(*q.StorageScoreParameters() == *p.StorageScoreParameters() && *q.WorkScoreParameters() == *p.WorkScoreParameters() && *q.CongestionControlParameters() == *p.CongestionControlParameters() && *q.VersionSignalingParameters() == *p.VersionSignalingParameters() && *q.RewardsParameters() == *p.RewardsParameters(), "groups of parameters")
	nd.Assert(q.LivenessThresholdLowerBound() == p.LivenessThresholdLowerBound() && q.LivenessThresholdUpperBound()/time.Second*time.Second == p.LivenessThresholdUpperBound(), "liveness thresholds")
	g := &numbers{}
	g.le(uint64(q.TokenSupply()), 8)
	g.le(uint64(q.GenesisSlot()), 4)
	g.le(uint64(q.GenesisUnixTimestamp()), 8)
	g.le(uint64(q.SlotDurationInSeconds()), 1)
	g.le(uint64(q.SlotsPerEpochExponent()), 1)
	g.le(uint64(q.StakingUnbondingPeriod()), 4)
	g.le(uint64(q.ValidationBlocksPerSlot()), 1)
	g.le(uint64(q.PunishmentEpochs()), 4)
	g.le(uint64(q.LivenessThresholdLowerBound()/time.Second), 2)
	g.le(uint64(q.LivenessThresholdUpperBound()/time.Second), 2)
	g.le(uint64(q.MinCommittableAge()), 4)
	g.le(uint64(q.MaxCommittableAge()), 4)
	g.le(uint64(q.EpochNearingThreshold()), 4)
	nd.Assert(eqBytes(g.wire, wire[len(wire)-121:len(wire)-74]), "single parameters")
	nd.Assert(q.TargetCommitteeSize() == wire[len(wire)-2] && q.ChainSwitchingThreshold() == wire[len(wire)-1], "single parameters")
	if q.SlotsPerEpochExponent() == 13 {
		nd.Assert(p.ParamEpochDurationInSlots() == 8192, "slots of an epoch")
	}
	_, _, err = iotago.ProtocolParametersFromBytes(wire[:len(wire)-1])
	nd.Assert(err != nil, "cut off parameters are refused")
	nd.Cover("done")
}

var _ = nd.Reg("H_params_equal", H_params_equal)

// H_params_equal: parameters are equal exactly if their encodings and hashes
// are.
func H_params_equal() {
	n, m := nd.Choice("factors", 3), nd.Choice("otherFactors", 3)
	p, a := anyParams("a.", 2, 3, n)
	q, b := anyParams("b.", 2, 3, m)
	same := n == m && eqBytes(a, b)
	nd.Assert(p.Equals(q) == same && q.Equals(p) == same, "parameters are equal exactly if their encodings are")
	nd.Assert((must(p.Hash()) == must(q.Hash())) == same, "parameters are equal exactly if their hashes are")
	nd.Cover("done")
}

var _ = nd.Reg("H_params_check", H_params_check)

// H_params_check: new parameters are refused exactly if they contradict
// themselves.
func H_params_check() {
	u16 := func(name string) uint64 { return uint64(nd.U16(name)) }
	u32 := func(name string) uint64 { return uint64(nd.U32(name)) }
	var opts []options.Option[iotago.V3ProtocolParameters]
	ok := true
	switch nd.Choice("group", 3) {
	case 0:
		lower, upper := u16("livenessLower"), u16("livenessUpper")
		minAge, maxAge, nearing := u32("minAge"), u32("maxAge"), u32("nearing")
		opts = append(opts, iotago.WithTimeProviderOptions(5, 1690879505, 10, 13), iotago.WithLivenessOptions(uint16(lower), uint16(upper), iotago.SlotIndex(minAge), iotago.SlotIndex(maxAge), iotago.SlotIndex(nearing)))
		ok = lower <= upper && upper < minAge*10 && minAge < maxAge && maxAge < nearing && nearing < 8192
	case 1:
		inc, dec, rate := u32("increase"), u32("decrease"), u32("rate")
		// more than a day of this rate does not fit
		nd.Assume(rate <= 400_000_000)
		opts = append(opts, iotago.WithCongestionControlOptions(1, 1, 1, iotago.WorkScore(inc), iotago.WorkScore(dec), iotago.WorkScore(rate), 1000, 100))
		ok = inc <= 10*rate && dec <= inc
	case 2:
		blocks, exp := nd.U8("validationBlocks"), nd.U8("poolExponent")
		opts = append(opts, iotago.WithStakingOptions(10, blocks, 10), iotago.WithRewardsOptions(8, exp, 2, 384))
		// the supply has 51 bits
		ok = blocks <= 32 && exp <= 13
	}
	accepted := func() (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		iotago.NewV3SnapshotProtocolParameters(opts...)
		return true
	}()
	nd.Assert(accepted == ok, "parameters are accepted exactly if they fit together")
	if accepted {
		nd.Cover("accepted")
	} else {
		nd.Cover("refused")
	}
}
