package props

import (
	"strings"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	nodeapi "github.com/iotaledger/iota.go/v4/api"
	"verif/harness/nd"
)

// checkBoth sends x through its binary form into y and through its JSON form into z.
func checkBoth(api iotago.API, x, y, z any) {
	b, err := api.Encode(x, serix.WithValidation())
	nd.Assert(err == nil, "valid objects encode")
	n, err := api.Decode(b, y, serix.WithValidation())
	nd.Assert(err == nil && n == len(b), "encoded objects decode")
	b2, err := api.Encode(y, serix.WithValidation())
	nd.Assert(err == nil && eqBytes(b, b2), "objects survive their encoding")
	checkJSON(api, x, z)
}

// anyText is printable text of n symbols.
func anyText(name string, n int) string {
	b := nd.Bytes(name, n)
	for _, c := range b {
		nd.Assume(c >= 0x20 && c < 0x7f)
	}
	return string(b)
}

func anyToken(name string) iotago.BaseToken { return iotago.BaseToken(nd.U64(name)) }
func anyCommitmentID(name string) iotago.CommitmentID {
	return iotago.NewCommitmentID(anySlot(name), anyID(name))
}
func anyTxID(name string) iotago.TransactionID {
	return iotago.NewTransactionID(anySlot(name), anyID(name))
}
func anyBlockID(name string) iotago.BlockID { return iotago.NewBlockID(anySlot(name), anyID(name)) }
func anyOutputID(name string) iotago.OutputID {
	i := nd.U16(name)
	nd.Assume(i < iotago.MaxOutputsCount)
	return iotago.OutputIDFromTransactionIDAndIndex(anyTxID(name), i)
}

// anyTime is a time of day in one of some years, down to the nanosecond.
func anyTime(name string) time.Time {
	base := []int64{0, 1_700_000_000, 1 << 33}[nd.Choice(name, 3)]
	return time.Unix(base, int64(nd.Range64(name, 0, 999_999_999))).UTC()
}

var _ = nd.Reg("H_api_node", H_api_node)

// H_api_node: what nodes answer about themselves, the committee and rewards.
func H_api_node() {
	api := newAPI()
	switch nd.Choice("model", 9) {
	case 0:
		p, wire := anyParams("", 1, 3, 1)
		t := time.Unix(1690879505, 0).UTC()
		x := &nodeapi.InfoResponse{
			Name: anyText("name", nd.Choice("nameLength", 3)), Version: anyText("version", 2),
			Status: &nodeapi.InfoResNodeStatus{
				IsHealthy: nd.Bool("healthy"), IsNetworkHealthy: nd.Bool("network"),
				AcceptedTangleTime: t, RelativeAcceptedTangleTime: t.Add(1), ConfirmedTangleTime: t.Add(2), RelativeConfirmedTangleTime: t.Add(3),
				LatestCommitmentID: anyCommitmentID("commitment"), LatestFinalizedSlot: anySlot("finalized"), LatestAcceptedBlockSlot: anySlot("accepted"),
				LatestConfirmedBlockSlot: anySlot("confirmed"), PruningEpoch: anyEpoch("pruning"),
			},
			ProtocolParameters: []*nodeapi.InfoResProtocolParameters{{StartEpoch: anyEpoch("start"), Parameters: p}},
			BaseToken:          &nodeapi.InfoResBaseToken{Name: anyText("token", 2), TickerSymbol: anyText("ticker", 1), Unit: anyText("unit", 1), Subunit: anyText("subunit", nd.Choice("subunit", 2)), Decimals: nd.U32("decimals")},
		}
		y, z := &nodeapi.InfoResponse{}, &nodeapi.InfoResponse{}
		checkBoth(api, x, y, z)
		for _, o := range []*nodeapi.InfoResponse{y, z} {
			nd.Assert(o.Name == x.Name && o.Version == x.Version && *o.BaseToken == *x.BaseToken, "names are kept")
			nd.Assert(o.Status.AcceptedTangleTime.Equal(x.Status.AcceptedTangleTime) && o.Status.RelativeAcceptedTangleTime.Equal(x.Status.RelativeAcceptedTangleTime) && o.Status.ConfirmedTangleTime.Equal(x.Status.ConfirmedTangleTime) && o.Status.RelativeConfirmedTangleTime.Equal(x.Status.RelativeConfirmedTangleTime), "times are kept")
			nd.Assert(o.Status.IsHealthy == x.Status.IsHealthy && o.Status.IsNetworkHealthy == x.Status.IsNetworkHealthy && o.Status.LatestCommitmentID == x.Status.LatestCommitmentID && o.Status.LatestFinalizedSlot == x.Status.LatestFinalizedSlot && o.Status.LatestAcceptedBlockSlot == x.Status.LatestAcceptedBlockSlot && o.Status.LatestConfirmedBlockSlot == x.Status.LatestConfirmedBlockSlot && o.Status.PruningEpoch == x.Status.PruningEpoch, "the status is kept")
			nd.Assert(len(o.ProtocolParameters) == 1 && o.ProtocolParameters[0].StartEpoch == x.ProtocolParameters[0].StartEpoch && eqBytes(must(o.ProtocolParameters[0].Parameters.Bytes()), wire), "parameters are kept")
		}
		nd.Cover("info")
	case 1:
		x := &nodeapi.NetworkHealthResponse{IsNetworkHealthy: nd.Bool("healthy")}
		y, z := &nodeapi.NetworkHealthResponse{}, &nodeapi.NetworkHealthResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(*x == *y && *x == *z, "responses are kept")
		v := &nodeapi.HealthResponse{IsHealthy: nd.Bool("healthy")}
		u, w := &nodeapi.HealthResponse{}, &nodeapi.HealthResponse{}
		checkBoth(api, v, u, w)
		nd.Assert(*v == *u && *v == *w, "responses are kept")
	case 2:
		f := []float64{0, 1.5, 1e300}
		x := &nodeapi.NetworkMetricsResponse{BlocksPerSecond: f[nd.Choice("a", 3)], ConfirmedBlocksPerSecond: f[nd.Choice("b", 3)], ConfirmationRate: f[nd.Choice("c", 3)]}
		y, z := &nodeapi.NetworkMetricsResponse{}, &nodeapi.NetworkMetricsResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(*x == *y && *x == *z, "responses are kept")
	case 3:
		x := &nodeapi.CongestionResponse{Slot: anySlot("slot"), Ready: nd.Bool("ready"), ReferenceManaCost: anyMana("cost"), BlockIssuanceCredits: iotago.BlockIssuanceCredits(nd.U64("credits"))}
		y, z := &nodeapi.CongestionResponse{}, &nodeapi.CongestionResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(*x == *y && *x == *z, "responses are kept")
		nd.Cover("congestion")
	case 4:
		var vs []*nodeapi.ValidatorResponse
		for i := nd.Choice("validators", 3); i > 0; i-- {
			vs = append(vs, &nodeapi.ValidatorResponse{AddressBech32: anyText("address", 2), StakingEndEpoch: anyEpoch("end"), PoolStake: anyToken("pool"), ValidatorStake: anyToken("stake"), FixedCost: anyMana("cost"), Active: nd.Bool("active"), LatestSupportedProtocolVersion: iotago.Version(nd.U8("version")), LatestSupportedProtocolHash: anyID("hash")})
		}
		x := &nodeapi.ValidatorsResponse{Validators: vs, PageSize: nd.U32("page"), Cursor: anyText("cursor", nd.Choice("cursor", 2))}
		y, z := &nodeapi.ValidatorsResponse{}, &nodeapi.ValidatorsResponse{}
		checkBoth(api, x, y, z)
		for _, o := range []*nodeapi.ValidatorsResponse{y, z} {
			nd.Assert(o.PageSize == x.PageSize && o.Cursor == x.Cursor && len(o.Validators) == len(vs), "responses are kept")
			for i := range vs {
				nd.Assert(*o.Validators[i] == *vs[i], "validators are kept")
			}
		}
		nd.Cover("validators")
	case 5:
		x := &nodeapi.ManaRewardsResponse{StartEpoch: anyEpoch("start"), EndEpoch: anyEpoch("end"), Rewards: anyMana("rewards"), LatestCommittedEpochPoolRewards: anyMana("pool")}
		y, z := &nodeapi.ManaRewardsResponse{}, &nodeapi.ManaRewardsResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(*x == *y && *x == *z, "responses are kept")
		nd.Cover("rewards")
	case 6:
		var ms []*nodeapi.CommitteeMemberResponse
		for i := nd.Choice("members", 3); i > 0; i-- {
			ms = append(ms, &nodeapi.CommitteeMemberResponse{AddressBech32: anyText("address", 2), PoolStake: anyToken("pool"), ValidatorStake: anyToken("stake"), FixedCost: anyMana("cost")})
		}
		x := &nodeapi.CommitteeResponse{Committee: ms, TotalStake: anyToken("total"), TotalValidatorStake: anyToken("validators"), Epoch: anyEpoch("epoch")}
		y, z := &nodeapi.CommitteeResponse{}, &nodeapi.CommitteeResponse{}
		checkBoth(api, x, y, z)
		for _, o := range []*nodeapi.CommitteeResponse{y, z} {
			nd.Assert(o.TotalStake == x.TotalStake && o.TotalValidatorStake == x.TotalValidatorStake && o.Epoch == x.Epoch && len(o.Committee) == len(ms), "responses are kept")
			for i := range ms {
				nd.Assert(*o.Committee[i] == *ms[i], "members are kept")
			}
		}
		nd.Cover("committee")
	case 7:
		x := &nodeapi.IndexerResponse{CommittedSlot: anySlot("slot"), PageSize: nd.U32("page"), Cursor: anyText("cursor", nd.Choice("cursor", 2))}
		for i := nd.Choice("items", 3); i > 0; i-- {
			x.Items = append(x.Items, iotago.HexOutputID(anyText("item", 3)))
		}
		y, z := &nodeapi.IndexerResponse{}, &nodeapi.IndexerResponse{}
		checkBoth(api, x, y, z)
		for _, o := range []*nodeapi.IndexerResponse{y, z} {
			nd.Assert(o.CommittedSlot == x.CommittedSlot && o.PageSize == x.PageSize && o.Cursor == x.Cursor && len(o.Items) == len(x.Items), "responses are kept")
			for i := range x.Items {
				nd.Assert(o.Items[i] == x.Items[i], "found outputs are kept")
			}
		}
		nd.Cover("indexer")
	case 8:
		x := &nodeapi.BlockIssuerInfo{BlockIssuerAddress: anyText("address", 3), PowTargetTrailingZeros: nd.U8("zeros")}
		y, z := &nodeapi.BlockIssuerInfo{}, &nodeapi.BlockIssuerInfo{}
		checkBoth(api, x, y, z)
		nd.Assert(*x == *y && *x == *z, "responses are kept")
		r := &nodeapi.RoutesResponse{}
		for i := nd.Choice("routes", 3); i > 0; i-- {
			r.Routes = append(r.Routes, iotago.PrefixedStringUint8(anyText("route", i)))
		}
		s, t := &nodeapi.RoutesResponse{}, &nodeapi.RoutesResponse{}
		checkBoth(api, r, s, t)
		nd.Assert(len(s.Routes) == len(r.Routes) && len(t.Routes) == len(r.Routes), "routes are kept")
		for i := range r.Routes {
			nd.Assert(s.Routes[i] == r.Routes[i] && t.Routes[i] == r.Routes[i], "routes are kept")
		}
	}
	nd.Cover("done")
}

var _ = nd.Reg("H_api_ledger", H_api_ledger)

// H_api_ledger: what nodes answer about blocks, transactions and outputs.
func H_api_ledger() {
	api := newAPI()
	switch nd.Choice("model", 8) {
	case 0:
		x := &nodeapi.IssuanceBlockHeaderResponse{
			StrongParents: anyBlockIDs("strong", 10, 1+nd.Choice("strongParents", 2)), WeakParents: anyBlockIDs("weak", 30, nd.Choice("weakParents", 2)), ShallowLikeParents: anyBlockIDs("shallow", 50, nd.Choice("shallowParents", 2)),
			LatestParentBlockIssuingTime: anyTime("time"), LatestFinalizedSlot: anySlot("finalized"), LatestCommitment: anyCommitment(),
		}
		y, z := &nodeapi.IssuanceBlockHeaderResponse{}, &nodeapi.IssuanceBlockHeaderResponse{}
		checkBoth(api, x, y, z)
		for _, o := range []*nodeapi.IssuanceBlockHeaderResponse{y, z} {
			nd.Assert(o.LatestParentBlockIssuingTime.Equal(x.LatestParentBlockIssuingTime) && o.LatestFinalizedSlot == x.LatestFinalizedSlot && *o.LatestCommitment == *x.LatestCommitment, "responses are kept")
			nd.Assert(len(o.StrongParents) == len(x.StrongParents) && len(o.WeakParents) == len(x.WeakParents) && len(o.ShallowLikeParents) == len(x.ShallowLikeParents), "parents are kept")
			nd.Assert(o.StrongParents[0] == x.StrongParents[0] && (len(x.WeakParents) == 0 || o.WeakParents[0] == x.WeakParents[0]) && (len(x.ShallowLikeParents) == 0 || o.ShallowLikeParents[0] == x.ShallowLikeParents[0]), "parents are kept")
		}
		nd.Cover("issuance")
	case 1:
		s := nd.U8("state")
		nd.Assume(s <= uint8(nodeapi.BlockStateOrphaned))
		x := &nodeapi.BlockMetadataResponse{BlockID: anyBlockID("block"), BlockState: nodeapi.BlockState(s)}
		y, z := &nodeapi.BlockMetadataResponse{}, &nodeapi.BlockMetadataResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(*x == *y && *x == *z, "responses are kept")
		v := &nodeapi.BlockCreatedResponse{BlockID: anyBlockID("created")}
		u, w := &nodeapi.BlockCreatedResponse{}, &nodeapi.BlockCreatedResponse{}
		checkBoth(api, v, u, w)
		nd.Assert(*v == *u && *v == *w, "responses are kept")
		nd.Cover("block metadata")
	case 2:
		k := nd.Choice("block", 4)
		b := richBlock(api, k)
		if k != 1 { // its transaction asks for a certain commitment
			b.Header = anyHeader(api)
		}
		x := &nodeapi.BlockWithMetadataResponse{Block: b, Metadata: &nodeapi.BlockMetadataResponse{BlockID: must(b.ID()), BlockState: nodeapi.BlockStateAccepted}}
		y, z := &nodeapi.BlockWithMetadataResponse{}, &nodeapi.BlockWithMetadataResponse{}
		checkBoth(api, x, y, z)
		for _, o := range []*nodeapi.BlockWithMetadataResponse{y, z} {
			nd.Assert(must(o.Block.ID()) == must(b.ID()) && *o.Metadata == *x.Metadata, "responses are kept")
		}
		nd.Cover("block")
	case 3:
		s := nd.U8("state")
		nd.Assume(s <= uint8(nodeapi.TransactionStateFailed))
		x := &nodeapi.TransactionMetadataResponse{TransactionID: anyTxID("transaction"), TransactionState: nodeapi.TransactionState(s), EarliestAttachmentSlot: anySlot("attachment"), TransactionFailureReason: nodeapi.TransactionFailureReason(nd.U8("reason")), TransactionFailureDetails: anyText("details", nd.Choice("details", 3))}
		y, z := &nodeapi.TransactionMetadataResponse{}, &nodeapi.TransactionMetadataResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(*x == *y && *x == *z, "responses are kept")
		t, n, err := nodeapi.TransactionStateFromBytes(append(must(x.TransactionState.Bytes()), 1))
		nd.Assert(err == nil && n == 1 && t == x.TransactionState, "transaction states are kept")
		r, n, err := nodeapi.TransactionFailureReasonFromBytes(append(must(x.TransactionFailureReason.Bytes()), 1))
		nd.Assert(err == nil && n == 1 && r == x.TransactionFailureReason, "failure reasons are kept")
		nd.Cover("transaction metadata")
	case 4:
		x := &nodeapi.OutputMetadata{
			OutputID: anyOutputID("output"), BlockID: anyBlockID("block"), LatestCommitmentID: anyCommitmentID("latest"),
			Included: &nodeapi.OutputInclusionMetadata{Slot: anySlot("included"), TransactionID: anyTxID("included")},
		}
		if maybe("committed") {
			x.Included.CommitmentID = anyCommitmentID("included")
		}
		if maybe("spent") {
			x.Spent = &nodeapi.OutputConsumptionMetadata{Slot: anySlot("spent"), TransactionID: anyTxID("spent")}
			if maybe("spentCommitted") {
				x.Spent.CommitmentID = anyCommitmentID("spent")
			}
		}
		y, z := &nodeapi.OutputMetadata{}, &nodeapi.OutputMetadata{}
		checkBoth(api, x, y, z)
		for _, o := range []*nodeapi.OutputMetadata{y, z} {
			nd.Assert(o.OutputID == x.OutputID && o.BlockID == x.BlockID && o.LatestCommitmentID == x.LatestCommitmentID && *o.Included == *x.Included && (o.Spent == nil) == (x.Spent == nil), "responses are kept")
			nd.Assert(x.Spent == nil || *o.Spent == *x.Spent, "the spending is kept")
		}
		nd.Cover("output metadata")
	case 5:
		e := newTxEnv(api, 100)
		k := nd.Choice("kind", 6)
		e.out(anyKept(k))
		e.out(basic(ed(2), 1_000_000, 0))
		p := must(iotago.OutputIDProofFromTransaction(e.tx, 0))
		x := &nodeapi.OutputResponse{Output: e.tx.Outputs[0], OutputIDProof: p}
		y, z := &nodeapi.OutputResponse{}, &nodeapi.OutputResponse{}
		checkBoth(api, x, y, z)
		for _, o := range []*nodeapi.OutputResponse{y, z} {
			nd.Assert(o.Output.Equal(x.Output) && must(o.OutputIDProof.OutputID(o.Output)) == must(p.OutputID(x.Output)), "responses are kept")
		}
		nd.Cover("output")
	case 6:
		x := &nodeapi.UTXOChangesResponse{CommitmentID: anyCommitmentID("commitment")}
		for i := nd.Choice("created", 3); i > 0; i-- {
			x.CreatedOutputs = append(x.CreatedOutputs, anyOutputID("created"))
		}
		for i := nd.Choice("consumed", 3); i > 0; i-- {
			x.ConsumedOutputs = append(x.ConsumedOutputs, anyOutputID("consumed"))
		}
		y, z := &nodeapi.UTXOChangesResponse{}, &nodeapi.UTXOChangesResponse{}
		checkBoth(api, x, y, z)
		for _, o := range []*nodeapi.UTXOChangesResponse{y, z} {
			nd.Assert(o.CommitmentID == x.CommitmentID && len(o.CreatedOutputs) == len(x.CreatedOutputs) && len(o.ConsumedOutputs) == len(x.ConsumedOutputs), "responses are kept")
			for i := range x.CreatedOutputs {
				nd.Assert(o.CreatedOutputs[i] == x.CreatedOutputs[i], "created outputs are kept")
			}
			for i := range x.ConsumedOutputs {
				nd.Assert(o.ConsumedOutputs[i] == x.ConsumedOutputs[i], "consumed outputs are kept")
			}
		}
		nd.Cover("changes")
	case 7:
		mk := func(name string) []*nodeapi.OutputWithID {
			var s []*nodeapi.OutputWithID
			if maybe(name) {
				s = append(s, &nodeapi.OutputWithID{OutputID: anyOutputID(name), Output: anyKept(nd.Choice(name, 6))})
			}
			return s
		}
		x := &nodeapi.UTXOChangesFullResponse{CommitmentID: anyCommitmentID("commitment"), CreatedOutputs: mk("created"), ConsumedOutputs: mk("consumed")}
		y, z := &nodeapi.UTXOChangesFullResponse{}, &nodeapi.UTXOChangesFullResponse{}
		checkBoth(api, x, y, z)
		for _, o := range []*nodeapi.UTXOChangesFullResponse{y, z} {
			nd.Assert(o.CommitmentID == x.CommitmentID && len(o.CreatedOutputs) == len(x.CreatedOutputs) && len(o.ConsumedOutputs) == len(x.ConsumedOutputs), "responses are kept")
			for i := range x.CreatedOutputs {
				nd.Assert(o.CreatedOutputs[i].OutputID == x.CreatedOutputs[i].OutputID && o.CreatedOutputs[i].Output.Equal(x.CreatedOutputs[i].Output), "created outputs are kept")
			}
			for i := range x.ConsumedOutputs {
				nd.Assert(o.ConsumedOutputs[i].OutputID == x.ConsumedOutputs[i].OutputID && o.ConsumedOutputs[i].Output.Equal(x.ConsumedOutputs[i].Output), "consumed outputs are kept")
			}
		}
		nd.Cover("full changes")
	}
	nd.Cover("done")
}

// anyKept is the rich output of a kind.
func anyKept(k int) iotago.TxEssenceOutput { return richOutput(k) }

var _ = nd.Reg("H_api_admin", H_api_admin)

// H_api_admin: what nodes answer about their health, routes, peers, pruning and
// block issuer.
func H_api_admin() {
	api := newAPI()
	switch nd.Choice("model", 8) {
	case 0:
		x := &nodeapi.HealthResponse{IsHealthy: nd.Bool("healthy")}
		y, z := &nodeapi.HealthResponse{}, &nodeapi.HealthResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(y.IsHealthy == x.IsHealthy && z.IsHealthy == x.IsHealthy, "the health is kept")
	case 1:
		x := &nodeapi.RoutesResponse{Routes: []iotago.PrefixedStringUint8{}}
		for i, n := 0, nd.Choice("routes", 3); i < n; i++ {
			x.Routes = append(x.Routes, iotago.PrefixedStringUint8(anyText("route", 2)))
		}
		y, z := &nodeapi.RoutesResponse{}, &nodeapi.RoutesResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(len(y.Routes) == len(x.Routes) && len(z.Routes) == len(x.Routes), "all routes are kept")
		for i, r := range x.Routes {
			nd.Assert(y.Routes[i] == r && z.Routes[i] == r, "routes are kept")
		}
	case 2:
		x := &nodeapi.AddPeerRequest{MultiAddress: anyText("address", 2), Alias: anyText("alias", nd.Choice("alias", 3))}
		y, z := &nodeapi.AddPeerRequest{}, &nodeapi.AddPeerRequest{}
		checkBoth(api, x, y, z)
		nd.Assert(*y == *x && *z == *x, "the peer is kept")
	case 3, 4:
		x := &nodeapi.PeersResponse{Peers: []*nodeapi.PeerInfo{}}
		for i, n := 0, nd.Choice("peers", 3); i < n; i++ {
			p := &nodeapi.PeerInfo{ID: anyText("id", 1), MultiAddresses: []iotago.PrefixedStringUint8{}, Alias: anyText("alias", nd.Choice("alias", 2)), Relation: anyText("relation", 1), Connected: nd.Bool("connected"),
				GossipMetrics: &nodeapi.PeerGossipMetrics{PacketsReceived: nd.U32("received"), PacketsSent: nd.U32("sent")}}
			for j, m := 0, nd.Choice("addresses", 3); j < m; j++ {
				p.MultiAddresses = append(p.MultiAddresses, iotago.PrefixedStringUint8(anyText("address", 1)))
			}
			x.Peers = append(x.Peers, p)
		}
		y, z := &nodeapi.PeersResponse{}, &nodeapi.PeersResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(len(y.Peers) == len(x.Peers) && len(z.Peers) == len(x.Peers), "all peers are kept")
		for i, p := range x.Peers {
			for _, q := range []*nodeapi.PeerInfo{y.Peers[i], z.Peers[i]} {
				nd.Assert(q.ID == p.ID && q.Alias == p.Alias && q.Relation == p.Relation && q.Connected == p.Connected && len(q.MultiAddresses) == len(p.MultiAddresses), "peers are kept")
				nd.Assert(*q.GossipMetrics == *p.GossipMetrics, "metrics are kept")
			}
		}
	case 5:
		x := &nodeapi.PruneDatabaseRequest{Epoch: anyEpoch("epoch"), Depth: anyEpoch("depth"), TargetDatabaseSize: anyText("size", nd.Choice("size", 2))}
		y, z := &nodeapi.PruneDatabaseRequest{}, &nodeapi.PruneDatabaseRequest{}
		checkBoth(api, x, y, z)
		nd.Assert(*y == *x && *z == *x, "the request is kept")
	case 6:
		x := &nodeapi.PruneDatabaseResponse{Epoch: anyEpoch("epoch")}
		y, z := &nodeapi.PruneDatabaseResponse{}, &nodeapi.PruneDatabaseResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(*y == *x && *z == *x, "the epoch is kept")
	case 7:
		x := &nodeapi.BlockIssuerInfo{BlockIssuerAddress: anyText("address", 3), PowTargetTrailingZeros: nd.U8("zeros")}
		y, z := &nodeapi.BlockIssuerInfo{}, &nodeapi.BlockIssuerInfo{}
		checkBoth(api, x, y, z)
		nd.Assert(*y == *x && *z == *x, "the block issuer is kept")
	}
	nd.Cover("done")
}

var _ = nd.Reg("H_api_states", H_api_states)

// H_api_states: only the known states have a text, and every text stands for one state.
func H_api_states() {
	b := nodeapi.BlockState(nd.U8("state"))
	t := nodeapi.TransactionState(b)
	e, err := b.EncodeJSON()
	nd.Assert((err == nil) == (b <= nodeapi.BlockStateOrphaned), "exactly the known block states have a text")
	if err == nil {
		var c nodeapi.BlockState = 99
		nd.Assert(c.DecodeJSON(e) == nil && c == b && e.(string) == b.String(), "the text stands for the block state")
		nd.Cover("block state")
	}
	e, err = t.EncodeJSON()
	nd.Assert((err == nil) == (t <= nodeapi.TransactionStateFailed), "exactly the known transaction states have a text")
	if err == nil {
		var c nodeapi.TransactionState = 99
		nd.Assert(c.DecodeJSON(e) == nil && c == t && e.(string) == t.String(), "the text stands for the transaction state")
		nd.Cover("transaction state")
	}
	bs := []string{"unknown", "pending", "accepted", "confirmed", "finalized", "dropped", "orphaned"}
	if int(b) < len(bs) {
		nd.Assert(b.String() == bs[b], "block states have their documented text")
	}
	ts := []string{"unknown", "pending", "accepted", "committed", "finalized", "failed"}
	if int(t) < len(ts) {
		nd.Assert(t.String() == ts[t], "transaction states have their documented text")
	}
	var c nodeapi.BlockState
	var d nodeapi.TransactionState
	for _, s := range []any{nil, 1, "", "x", "Accepted", true} {
		nd.Assert(c.DecodeJSON(s) != nil && d.DecodeJSON(s) != nil, "other values are refused")
	}
}

var _ = nd.Reg("H_api_many", H_api_many)

// H_api_many: long lists and texts of responses are kept as well.
func H_api_many() {
	api := newAPI()
	n := []int{256, 255, 300}[nd.Choice("length", 1+2*nd.Tier())]
	k := nd.Choice("at", 2) * (n - 1)
	v := nd.U8("value")
	nd.Assume(v >= 0x20 && v < 0x7f && v != '"' && v != '\\' && v != '<' && v != '>' && v != '&')
	id := func(i int) iotago.OutputID {
		o := iotago.OutputIDFromTransactionIDAndIndex(txID(byte(i), 5), uint16(i>>8))
		if i == k {
			o[7] = v
		}
		return o
	}
	var ids, got1, got2 iotago.OutputIDs
	for i := 0; i < n; i++ {
		ids = append(ids, id(i))
	}
	switch nd.Choice("response", 7) {
	case 0, 1:
		x := &nodeapi.UTXOChangesResponse{CreatedOutputs: iotago.OutputIDs{}, ConsumedOutputs: iotago.OutputIDs{}}
		y, z := &nodeapi.UTXOChangesResponse{}, &nodeapi.UTXOChangesResponse{}
		if nd.Bool("created") {
			x.CreatedOutputs = ids
			checkBoth(api, x, y, z)
			got1, got2 = y.CreatedOutputs, z.CreatedOutputs
		} else {
			x.ConsumedOutputs = ids
			checkBoth(api, x, y, z)
			got1, got2 = y.ConsumedOutputs, z.ConsumedOutputs
		}
	case 2:
		x := &nodeapi.IndexerResponse{Items: iotago.HexOutputIDsFromOutputIDs(ids...)}
		y, z := &nodeapi.IndexerResponse{}, &nodeapi.IndexerResponse{}
		checkBoth(api, x, y, z)
		got1, got2 = must(y.Items.OutputIDs()), must(z.Items.OutputIDs())
	case 3:
		x := &nodeapi.ValidatorsResponse{}
		for i := 0; i < n; i++ {
			x.Validators = append(x.Validators, &nodeapi.ValidatorResponse{AddressBech32: "a", PoolStake: iotago.BaseToken(i)})
		}
		x.Validators[k].AddressBech32 = string([]byte{v})
		y, z := &nodeapi.ValidatorsResponse{}, &nodeapi.ValidatorsResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(len(y.Validators) == n && len(z.Validators) == n && *y.Validators[k] == *x.Validators[k] && *z.Validators[k] == *x.Validators[k], "all validators are kept")
		nd.Cover("validators")
		return
	case 4:
		x := &nodeapi.TransactionMetadataResponse{TransactionID: txID(1, 5), TransactionState: nodeapi.TransactionStateFailed, TransactionFailureDetails: strings.Repeat("x", n-1) + string([]byte{v})}
		y, z := &nodeapi.TransactionMetadataResponse{}, &nodeapi.TransactionMetadataResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(y.TransactionFailureDetails == x.TransactionFailureDetails && z.TransactionFailureDetails == x.TransactionFailureDetails, "all details are kept")
		nd.Cover("details")
		return
	case 5:
		n, k = 255, min(k, 254)
		x := &nodeapi.CommitteeResponse{}
		for i := 0; i < n; i++ {
			x.Committee = append(x.Committee, &nodeapi.CommitteeMemberResponse{AddressBech32: "a", PoolStake: iotago.BaseToken(i)})
		}
		x.Committee[k].AddressBech32 = strings.Repeat("x", 254) + string([]byte{v})
		y, z := &nodeapi.CommitteeResponse{}, &nodeapi.CommitteeResponse{}
		checkBoth(api, x, y, z)
		nd.Assert(len(y.Committee) == n && len(z.Committee) == n && *y.Committee[k] == *x.Committee[k] && *z.Committee[k] == *x.Committee[k], "the whole committee is kept")
		nd.Cover("committee")
		return
	case 6:
		nd.Assume(n == 256)
		x := &nodeapi.UTXOChangesFullResponse{}
		for _, i := range ids {
			x.CreatedOutputs = append(x.CreatedOutputs, &nodeapi.OutputWithID{OutputID: i, Output: basic(ed(1), iotago.BaseToken(i.Index())+1, 0)})
		}
		if nd.Bool("consumed") {
			x.CreatedOutputs, x.ConsumedOutputs = x.ConsumedOutputs, x.CreatedOutputs
		}
		y := &nodeapi.UTXOChangesFullResponse{}
		b, err := api.Encode(x)
		nd.Assert(err == nil, "long responses encode")
		m, err := api.Decode(b, y)
		nd.Assert(err == nil && m == len(b), "long responses decode")
		for _, o := range append(append([]*nodeapi.OutputWithID(nil), y.CreatedOutputs...), y.ConsumedOutputs...) {
			got1 = append(got1, o.OutputID)
		}
		got2 = got1
		nd.Cover("full changes")
	}
	nd.Assert(len(got1) == n && len(got2) == n && got1[k] == ids[k] && got2[k] == ids[k] && got1[n-1-k] == ids[n-1-k] && got2[n-1-k] == ids[n-1-k], "all outputs are kept")
	nd.Cover("done")
}
