package props

import (
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

// laterAPI stands for the API of a later protocol version.
type laterAPI struct {
	iotago.API
	params iotago.ProtocolParameters
}

func (l *laterAPI) Version() iotago.Version                       { return l.params.Version() }
func (l *laterAPI) ProtocolParameters() iotago.ProtocolParameters { return l.params }

// versionParams are the default parameters with another version and little
// to encode.
func versionParams(v iotago.Version) *iotago.V3ProtocolParameters {
	p := iotago.NewV3SnapshotProtocolParameters(
		iotago.WithVersion(v),
		iotago.WithTimeProviderOptions(0, 1690879505, 10, 13),
		iotago.WithLivenessOptions(10, 15, 2, 4, 60),
		iotago.WithStakingOptions(2, 10, 10),
	)
	p.ManaParameters().DecayFactors = p.ManaParameters().DecayFactors[:3]
	return p
}

func newProvider(base iotago.API) *iotago.EpochBasedProvider {
	return iotago.NewEpochBasedProvider(iotago.WithAPIForMissingVersionCallback(func(p iotago.ProtocolParameters) (iotago.API, error) {
		return &laterAPI{base, p}, nil
	}))
}

var _ = nd.Reg("H_provider_history", H_provider_history)

// H_provider_history: whatever the order in which versions become known, the
// API of an epoch is the one of the latest version started by then.
func H_provider_history() {
	params := map[iotago.Version]*iotago.V3ProtocolParameters{3: versionParams(3), 4: versionParams(4), 5: versionParams(5), 6: versionParams(6)}
	p := newProvider(iotago.V3API(params[3]))
	// what is known: the first start of a version counts
	starts := map[iotago.Version]iotago.EpochIndex{3: 0}
	has := map[iotago.Version]bool{3: true}
	future := map[iotago.Version]bool{}
	var committed iotago.Version = 3
	slot := iotago.SlotIndex(0)
	// the latest version started, unknown ones included
	at := func(e iotago.EpochIndex) iotago.Version {
		for v := iotago.Version(6); v > 3; v-- {
			if s, known := starts[v]; known && s <= e {
				return v
			}
		}
		return 3
	}
	p.AddProtocolParametersAtEpoch(params[3], 0)
	nd.Assert(p.CommittedAPI().Version() == 3 && p.LatestAPI().Version() == 3, "the first version is used at once")
	steps := 3 + nd.Tier()
	for i := 0; i < steps; i++ {
		op := nd.Choice("op", 5)
		if op == 4 {
			s := iotago.SlotIndex(nd.U32("committed"))
			v := at(iotago.EpochIndex(s >> 13))
			nd.Assume(has[v])
			p.SetCommittedSlot(s)
			slot = s
			if v > committed {
				committed = v
			}
			continue
		}
		v := iotago.Version(4 + nd.Choice("version", 2+nd.Tier()))
		e := iotago.EpochIndex(0)
		if op != 1 {
			e = iotago.EpochIndex(nd.U16("start"))
		}
		if op < 2 {
			nd.Assume(!has[v])
			has[v] = true
		}
		if _, known := starts[v]; op != 1 && !known {
			starts[v] = e
		}
		if op == 0 || op == 2 {
			c := at(iotago.EpochIndex(slot >> 13))
			// the parameters of started versions have to be there
			nd.Assume(has[c])
			if c > committed {
				committed = c
			}
		}
		switch op {
		case 0:
			p.AddProtocolParametersAtEpoch(params[v], e)
		case 1:
			p.AddProtocolParameters(params[v])
		case 2:
			p.AddVersion(v, e)
		case 3:
			p.AddFutureVersion(v, must(params[v].Hash()), e)
			future[v] = true
		}
	}
	nd.Assert(p.CommittedAPI().Version() == committed, "the committed API is the one of the committed slot")
	latest := iotago.Version(3)
	for v := iotago.Version(3); v < 7; v++ {
		if has[v] {
			latest = v
		}
		api, err := p.APIForVersion(v)
		nd.Assert((err == nil) == has[v], "versions with parameters have an API")
		if err == nil {
			nd.Assert(api.Version() == v && api.ProtocolParameters() == iotago.ProtocolParameters(params[v]), "the API of a version has its parameters")
			nd.Assert(p.ProtocolParameters(v) == iotago.ProtocolParameters(params[v]), "parameters by version")
		}
		s, known := p.EpochForVersion(v)
		want, wantKnown := starts[v]
		nd.Assert(known == wantKnown && (!known || s == want), "start of a version")
		h := p.ProtocolParametersHash(v)
		switch {
		case has[v], future[v]:
			nd.Assert(h == must(params[v].Hash()), "hash of parameters")
		default:
			nd.Assert(h == iotago.Identifier{}, "no hash of unknown parameters")
		}
	}
	nd.Assert(p.LatestAPI().Version() == latest, "the latest API is the one of the highest version with parameters")
	if maybe("time") {
		// slot q starts q-1 durations after the genesis
		q := []iotago.SlotIndex{8191, 8192, 100000}[nd.Choice("time", 3)]
		v := at(iotago.EpochIndex(q >> 13))
		nd.Assume(has[v])
		nd.Assert(p.APIForTime(time.Unix(1690879505+int64(q-1)*10+9, 0)).Version() == v, "API for time")
		return
	}
	q := iotago.SlotIndex(nd.U32("slot"))
	v := at(iotago.EpochIndex(q >> 13))
	nd.Assert(p.VersionForSlot(q) == v, "version for slot")
	if has[v] {
		nd.Cover("known")
		nd.Assert(p.APIForSlot(q).Version() == v, "API for slot")
		nd.Assert(p.APIForEpoch(iotago.EpochIndex(q>>13)).Version() == v, "API for epoch")
	} else {
		nd.Cover("unknown")
	}
}

var _ = nd.Reg("H_provider_hash", H_provider_hash)

// H_provider_hash: nodes that have the parameters and nodes that only know
// their hash agree on the hash of all versions, and only if the versions,
// starts and parameters are the same.
func H_provider_hash() {
	type version struct {
		v     iotago.Version
		start iotago.EpochIndex
		p     *iotago.V3ProtocolParameters
	}
	p3, p4, p5 := versionParams(3), versionParams(4), versionParams(5)
	alt := versionParams(4)
	nd.Observe("probe", 0)
	alt.StorageScoreParameters().FactorData++
	build := func(side string, n int, reverse bool) (*iotago.EpochBasedProvider, []version) {
		p := newProvider(nil)
		p.AddProtocolParametersAtEpoch(p3, 0)
		vs := []version{{3, 0, p3}}
		for i := 0; i < n; i++ {
			x := version{iotago.Version(4 + i), iotago.EpochIndex(nd.U32(side + "start")), []*iotago.V3ProtocolParameters{p4, p5}[i]}
			if i == 0 && maybe(side+"other") {
				x.p = alt
			}
			vs = append(vs, x)
		}
		for i := range n {
			x := vs[1+i]
			if reverse {
				x = vs[n-i]
			}
			if maybe(side + "future") {
				p.AddFutureVersion(x.v, must(x.p.Hash()), x.start)
				if maybe(side + "then") {
					p.AddProtocolParameters(x.p)
				}
			} else {
				p.AddProtocolParameters(x.p)
				p.AddFutureVersion(x.v, must(x.p.Hash()), x.start)
			}
		}
		return p, vs
	}
	n, m := nd.Choice("n", 3), nd.Choice("m", 3)
	a, va := build("a", n, false)
	b, vb := build("b", m, m > 1 && maybe("reverse"))
	same := n == m
	for i := 0; same && i <= n; i++ {
		same = va[i].start == vb[i].start && va[i].p == vb[i].p
	}
	if same {
		nd.Cover("same")
	} else {
		nd.Cover("different")
	}
	nd.Assert((must(a.VersionsAndProtocolParametersHash()) == must(b.VersionsAndProtocolParametersHash())) == same, "hashes are equal exactly if versions, starts and parameters are")
}
