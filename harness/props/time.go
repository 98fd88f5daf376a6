package props

import (
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

var _ = nd.Reg("H_time_epochs", H_time_epochs)

// timeInputs are the time parameters the protocol allows: the last slot of the
// epoch of every slot used below must be representable.
func timeInputs() (*iotago.TimeProvider, uint8) {
	genesisSlot := iotago.SlotIndex(nd.U32("genesisSlot"))
	exps := []uint8{13, 1, 20, 4}
	exp := exps[nd.Choice("exp", len(exps))]
	if nd.Tier() > 0 {
		exp = uint8(nd.Choice("exps", 25))
	}
	nd.Assume(genesisSlot < 1<<31)
	return iotago.NewTimeProvider(genesisSlot, 1690879505, 10, exp), exp
}

// H_time_epochs: slots and epochs partition consistently.
func H_time_epochs() {
	tp, exp := timeInputs()
	g := tp.GenesisSlot()
	d := uint64(1) << exp
	nd.Assert(uint64(tp.EpochDurationSlots()) == d, "epoch duration")
	slot := iotago.SlotIndex(nd.U32("slot"))
	nd.Assume(uint64(slot)+2*d < 1<<32)
	e := tp.EpochFromSlot(slot)
	nd.Observe("epoch", uint64(e))
	if slot < g {
		nd.Cover("before genesis")
		nd.Assert(e == 0, "slots before genesis are in epoch 0")
		return
	}
	nd.Cover("after genesis")
	first, last := tp.EpochStart(e), tp.EpochEnd(e)
	nd.Assert(uint64(e) == uint64(slot-g)/d, "epoch number")
	nd.Assert(first <= slot && slot <= last, "slot lies within its epoch")
	nd.Assert(uint64(last)-uint64(first)+1 == d, "an epoch has 2^exponent slots")
	nd.Assert(tp.EpochFromSlot(first) == e && tp.EpochFromSlot(last) == e, "bounds of an epoch belong to it")
	nd.Assert(tp.EpochStart(e+1) == last+1, "epochs are adjacent")
	nd.Assert(tp.EpochFromSlot(last+1) == e+1, "epochs are adjacent (slots)")
	nd.AssertKnown(uint64(tp.SlotsBeforeNextEpoch(slot)) == uint64(last)+1-uint64(slot), "slots before next epoch", "time-genesis-offset", g != 0)
	nd.AssertKnown(uint64(tp.SlotsSinceEpochStart(slot)) == uint64(slot)-uint64(first), "slots since epoch start", "time-genesis-offset", g != 0)
	nd.Cover("done")
}

var _ = nd.Reg("H_time_monotone", H_time_monotone)

// H_time_monotone: later slots never lie in earlier epochs.
func H_time_monotone() {
	tp, _ := timeInputs()
	a, b := iotago.SlotIndex(nd.U32("a")), iotago.SlotIndex(nd.U32("b"))
	nd.Assume(a <= b)
	nd.Assert(tp.EpochFromSlot(a) <= tp.EpochFromSlot(b), "epochs are monotone in slots")
	nd.Cover("done")
}

var _ = nd.Reg("H_time_slots", H_time_slots)

// H_time_slots: wall clock times and slots convert consistently.
func H_time_slots() {
	genesisSlot := iotago.SlotIndex(nd.U32("genesisSlot"))
	nd.Assume(genesisSlot < 1<<30)
	durs := []int64{10, 1, 255}
	dur := durs[nd.Choice("dur", 3)]
	genesisUnix := int64(nd.Range64("genesisUnix", 0, 1<<33))
	tp := iotago.NewTimeProvider(genesisSlot, genesisUnix, dur, 13)
	nd.Assert(tp.GenesisSlot() == genesisSlot && tp.GenesisUnixTime() == genesisUnix && tp.GenesisTime().Unix() == genesisUnix && tp.SlotDurationSeconds() == dur && tp.SlotsPerEpochExponent() == 13, "a time provider tells what it was given")
	nd.Assert(tp.EpochDurationSlots() == 8192 && tp.EpochDurationSeconds() == 8192*dur, "duration of an epoch")
	n := nd.U32("n")
	nd.Assume(n < 1<<24)
	slot := genesisSlot + iotago.SlotIndex(n)
	start, end := tp.SlotStartTime(slot), tp.SlotEndTime(slot)
	if n == 0 {
		nd.Cover("genesis")
		nd.Assert(tp.SlotFromTime(start) == slot && tp.SlotFromTime(end) == slot, "genesis slot times map back")
		nd.Assert(start.Before(tp.GenesisTime()), "genesis slot lies before genesis time")
		return
	}
	nd.Cover("later")
	nd.Assert(start.Unix() == genesisUnix+int64(n-1)*dur && start.Nanosecond() == 0, "start time of a slot")
	nd.Assert(end.Sub(start) == time.Duration(dur)*time.Second-time.Nanosecond, "a slot lasts the slot duration")
	nd.Assert(tp.SlotFromTime(start) == slot, "start time maps back to the slot")
	nd.Assert(tp.SlotFromTime(end) == slot, "end time maps back to the slot")
	nd.Assert(tp.SlotStartTime(slot+1).Sub(end) == time.Nanosecond, "slots are adjacent")
}
