package props

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/iotaledger/hive.go/ierrors"
	iotago "github.com/iotaledger/iota.go/v4"
	nodeapi "github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/builder"
	"github.com/iotaledger/iota.go/v4/hexutil"
	"github.com/iotaledger/iota.go/v4/nodeclient"
	"verif/harness/nd"
)

const (
	mimeJSON   = "application/json"
	mimeBinary = "application/vnd.iota.serializer-v2"
)

// asked is a request a node got.
type asked struct {
	method, target string
	header         http.Header
	body           []byte
	user           *url.Userinfo
}

type answer struct {
	status int
	header http.Header
	body   []byte
}

// node answers requests in turn and keeps them.
type node struct {
	asked   []asked
	answers []answer
	down    bool
}

var errDown = ierrors.New("connection refused")

func (n *node) RoundTrip(r *http.Request) (*http.Response, error) {
	a := asked{method: r.Method, target: strings.TrimPrefix(r.URL.RequestURI(), "http://node"), header: r.Header, user: r.URL.User}
	if r.Body != nil {
		a.body = must(io.ReadAll(r.Body))
	}
	n.asked = append(n.asked, a)
	if n.down {
		return nil, errDown
	}
	if len(n.answers) == 0 {
		panic("one request too many")
	}
	w := n.answers[0]
	n.answers = n.answers[1:]
	h := w.header
	if h == nil {
		h = http.Header{}
	}
	return &http.Response{StatusCode: w.status, Header: h, Body: io.NopCloser(bytes.NewReader(w.body)), Request: r}, nil
}

func (n *node) json(api iotago.API, v any) {
	n.answers = append(n.answers, answer{status: 200, body: must(api.JSONEncode(v))})
}

func (n *node) raw(b []byte) { n.answers = append(n.answers, answer{status: 200, body: b}) }

// got tells whether the last request is a GET of the target for this kind of
// answer, and drops it.
func (n *node) got(target, accept string) bool {
	a := n.asked[len(n.asked)-1]
	n.asked = n.asked[:len(n.asked)-1]
	return a.method == "GET" && a.target == target && len(a.body) == 0 && (accept == "" || a.header.Get("Accept") == accept)
}

func infoOf(api iotago.API, committed iotago.SlotIndex, params ...*nodeapi.InfoResProtocolParameters) *nodeapi.InfoResponse {
	if params == nil {
		params = []*nodeapi.InfoResProtocolParameters{{StartEpoch: 0, Parameters: api.ProtocolParameters()}}
	}
	return &nodeapi.InfoResponse{
		Name: "n", Version: "1",
		Status:             &nodeapi.InfoResNodeStatus{LatestCommitmentID: iotago.NewCommitmentID(committed, iotago.Identifier{1})},
		ProtocolParameters: params,
		BaseToken:          &nodeapi.InfoResBaseToken{Name: "t", TickerSymbol: "t", Unit: "t"},
	}
}

// newClient is a client of a node of the network of the API.
func newClient(api iotago.API) (*nodeclient.Client, *node) {
	n := &node{}
	n.json(api, infoOf(api, 50))
	c := must(nodeclient.New("http://node", nodeclient.WithHTTPClient(&http.Client{Transport: n})))
	nd.Assert(n.got("/api/core/v3/info", ""), "the client asks the node for its parameters")
	return c, n
}

var _ = nd.Reg("H_client_new", H_client_new)

// H_client_new: clients take protocol parameters and committed slot from the node.
func H_client_new() {
	p := iotago.NewV3SnapshotProtocolParameters(iotago.WithNetworkOptions("abc", []iotago.NetworkPrefix{"iota", "rms"}[nd.Choice("hrp", 2)]),
		iotago.WithTimeProviderOptions(iotago.SlotIndex(nd.Choice("genesis", 2)), 1690879505, 10, 13), iotago.WithLivenessOptions(10, 15, 2, 4, 60), iotago.WithStakingOptions(2, 10, 10))
	api := iotago.V3API(p)
	n := &node{}
	n.json(newAPI(), infoOf(api, iotago.SlotIndex(nd.U32("committed"))))
	opts := []nodeclient.ClientOption{nodeclient.WithHTTPClient(&http.Client{Transport: n})}
	hooked, known := maybe("hook"), maybe("user")
	if hooked {
		opts = append(opts, nodeclient.WithRequestURLHook(func(u string) string { return strings.Replace(u, "/proxied", "", 1) }))
	}
	who := url.UserPassword("me", "secret")
	if known {
		opts = append(opts, nodeclient.WithUserInfo(who))
	}
	base := "http://node"
	if hooked {
		base += "/proxied"
	}
	c, err := nodeclient.New(base, opts...)
	nd.Assert(err == nil, "the client takes the parameters of the node")
	nd.Assert(len(n.asked) == 1 && (n.asked[0].user == who) == known, "the node is told who asks, if it is to be")
	nd.Assert(n.got("/api/core/v3/info", "") && len(n.asked) == 0, "the client asks the node for its parameters")
	got := must(c.APIForVersion(p.Version()))
	nd.Assert(got.ProtocolParameters().Equals(p), "the parameters are the node's")
	_, err = c.APIForVersion(p.Version() + 1)
	nd.Assert(err != nil, "there is no version the node does not have")
	s := iotago.EpochIndex(nd.U32("epoch"))
	nd.Assert(c.APIForEpoch(s).ProtocolParameters().Equals(p) && c.LatestAPI().ProtocolParameters().Equals(p), "the parameters are the node's")
	later := iotago.SlotIndex(nd.U32("later"))
	n.json(api, infoOf(api, later))
	info, err := c.Info(context.Background())
	nd.Assert(err == nil && info.Status.LatestCommitmentID.Slot() == later, "the information is the node's")
	nd.Cover("done")
}

var _ = nd.Reg("H_client_outputs", H_client_outputs)

// H_client_outputs: clients hand out outputs only with a proof of the ID asked for.
func H_client_outputs() {
	api := newAPI()
	c, n := newClient(api)
	e := newTxEnv(api, iotago.SlotIndex(nd.U32("slot")))
	e.in(basic(ed(1), 1, 0), 50)
	count := 1 + nd.Choice("outputs", 3)
	amounts := []iotago.BaseToken{iotago.BaseToken(nd.U8("amount")), 2, 3}
	for i := 0; i < count; i++ {
		e.out(basic(ed(1), amounts[i], 3))
	}
	id := must(e.tx.ID())
	i := nd.Choice("index", count)
	real := iotago.OutputIDFromTransactionIDAndIndex(id, uint16(i))
	proof := must(iotago.OutputIDProofFromTransaction(e.tx, uint16(i)))
	query := real
	switch nd.Choice("query", 4) {
	case 1: // of another transaction
		query[nd.Choice("byte", 32)] = nd.U8("id")
	case 2: // of another slot
		query[32+nd.Choice("byte", 4)] = nd.U8("id")
	case 3: // another output
		query[36] = nd.U8("id")
		nd.Assume(query[36] < 128)
	}
	out := e.tx.Outputs[i].Clone().(*iotago.BasicOutput)
	if maybe("otherOutput") {
		out.Amount = iotago.BaseToken(nd.U8("other"))
	}
	genuine := out.Amount == amounts[i]
	ctx := context.Background()
	full := maybe("full")
	meta := &nodeapi.OutputMetadata{OutputID: real, BlockID: iotago.NewBlockID(7, anyID("block")), Included: &nodeapi.OutputInclusionMetadata{Slot: 5, TransactionID: id, CommitmentID: iotago.NewCommitmentID(7, iotago.Identifier{9})}, LatestCommitmentID: iotago.NewCommitmentID(9, iotago.Identifier{9})}
	var got iotago.Output
	var err error
	if full {
		n.raw(must(api.Encode(&nodeapi.OutputWithMetadataResponse{Output: out, OutputIDProof: proof, Metadata: meta})))
		var m *nodeapi.OutputMetadata
		got, m, err = c.OutputWithMetadataByID(ctx, query)
		nd.Assert(n.got("/api/core/v3/outputs/"+hexutil.EncodeHex(query[:])+"/full", mimeBinary), "the output is asked for")
		nd.Assert(err != nil || m.BlockID == meta.BlockID && m.OutputID == real && m.Included.TransactionID == id && m.Spent == nil, "the metadata is the node's")
	} else {
		n.raw(must(api.Encode(&nodeapi.OutputResponse{Output: out, OutputIDProof: proof})))
		got, err = c.OutputByID(ctx, query)
		nd.Assert(n.got("/api/core/v3/outputs/"+hexutil.EncodeHex(query[:]), mimeBinary), "the output is asked for")
	}
	nd.Assert((err == nil) == (query == real && genuine), "outputs need a proof of the ID asked for")
	if err != nil {
		nd.Assert(got == nil, "there is no output without a proof")
		nd.Cover("refused")
		return
	}
	nd.Assert(got.Equal(out), "the output is the node's")
	nd.Cover("output")
}

var _ = nd.Reg("H_client_status", H_client_status)

// H_client_status: answers of nodes that refuse or fail are errors.
func H_client_status() {
	api := newAPI()
	c, n := newClient(api)
	ctx := context.Background()
	codes := []int{400, 401, 403, 404, 409, 429, 500, 501, 502, 503, 504, 202}
	errs := []error{nodeclient.ErrHTTPBadRequest, nodeclient.ErrHTTPUnauthorized, nodeclient.ErrHTTPUnknownError, nodeclient.ErrHTTPNotFound, nodeclient.ErrHTTPUnknownError, nodeclient.ErrHTTPUnknownError, nodeclient.ErrHTTPInternalServerError, nodeclient.ErrHTTPNotImplemented, nodeclient.ErrHTTPUnknownError, nodeclient.ErrHTTPServiceUnavailable, nodeclient.ErrHTTPUnknownError, nodeclient.ErrHTTPUnknownError}
	i := nd.Choice("status", len(codes)+3)
	var want error
	switch {
	case i < len(codes):
		want = errs[i]
		n.answers = []answer{{status: codes[i]}}
	case i == len(codes):
		n.down, want = true, errDown
	default:
		n.answers = []answer{{status: 200 + 4*(i-len(codes)-1)}} // 200 or 204
	}
	switch call := nd.Choice("call", 5); call {
	case 0, 1:
		f, target := c.Health, "/health"
		if call == 1 {
			f, target = c.NetworkHealth, "/api/core/v3/network/health"
		}
		ok, err := f(ctx)
		nd.Assert(n.got(target, ""), "the node is asked for its health")
		nd.Assert(ok == (want == nil), "only an answer of success means health")
		if want == nodeclient.ErrHTTPServiceUnavailable {
			nd.Assert(err == nil, "a node that is not available is not healthy")
			nd.Cover("unhealthy")
		} else {
			nd.Assert(ierrors.Is(err, want), "other answers are errors")
		}
	case 2:
		nd.Assume(want != nil)
		_, err := c.TransactionByID(ctx, txID(1, 5))
		nd.Assert(err != nil && ierrors.Is(err, want), "refusals are errors")
		nd.Cover("refused")
	case 3:
		nd.Assume(want != nil)
		_, err := c.BlockMetadataByBlockID(ctx, iotago.NewBlockID(5, iotago.Identifier{1}))
		nd.Assert(err != nil && ierrors.Is(err, want), "refusals are errors")
		_, err = nodeclient.New("http://node", nodeclient.WithHTTPClient(&http.Client{Transport: &node{down: true}}))
		nd.Assert(err != nil, "there is no client without the node")
	case 4:
		nd.Assume(want != nil)
		_, err := c.Indexer(ctx)
		nd.Assert(err != nil && ierrors.Is(err, want), "refusals are errors")
	}
}

var _ = nd.Reg("H_client_routes", H_client_routes)

// H_client_routes: the clients of plugins are there if the node has the plugin.
func H_client_routes() {
	api := newAPI()
	c, n := newClient(api)
	ctx := context.Background()
	names := []string{"core/v3", "indexer/v2", "management/v1", "blockissuer/v1", "mqtt/v2"}
	var routes []iotago.PrefixedStringUint8
	has := make([]bool, len(names))
	for i, s := range names {
		if maybe("has") {
			has[i] = true
			routes = append(routes, iotago.PrefixedStringUint8(s))
		}
	}
	res := &nodeapi.RoutesResponse{Routes: routes}
	i := nd.Choice("plugin", 5)
	n.json(api, res)
	var err, want error
	switch i {
	case 0:
		var ok bool
		ok, err = c.NodeSupportsRoute(ctx, names[0])
		nd.Assert(err == nil && ok == has[0], "routes are those of the node")
		return
	case 1:
		_, err = c.Indexer(ctx)
		want = nodeclient.ErrIndexerPluginNotAvailable
	case 2:
		_, err = c.Management(ctx)
		want = nodeclient.ErrManagementPluginNotAvailable
	case 3:
		_, err = c.BlockIssuer(ctx)
		want = nodeclient.ErrBlockIssuerPluginNotAvailable
	case 4:
		got := must(c.Routes(ctx))
		nd.Assert(len(got.Routes) == len(routes), "the routes are the node's")
		return
	}
	nd.Assert(n.got("/api/routes", mimeJSON), "the node is asked for its routes")
	nd.Assert((err == nil) == has[i] && (err == nil || ierrors.Is(err, want)), "plugins are there if the node has them")
	nd.Cover("done")
}

var _ = nd.Reg("H_client_blocks", H_client_blocks)

// H_client_blocks: blocks are sent and handed out as they are.
func H_client_blocks() {
	api := newAPI()
	c, n := newClient(api)
	ctx := context.Background()
	x := richBlock(api, 2+nd.Choice("kind", 2))
	x.Header.IssuerID = accID(nd.U8("issuer"))
	x.Header.LatestFinalizedSlot = iotago.SlotIndex(nd.U32("finalized"))
	x.Signature = newKey(1).sign(must(x.SigningMessage()))
	b := must(api.Encode(x))
	id := iotago.NewBlockID(iotago.SlotIndex(nd.U32("slot")), anyID("id"))
	hex := hexutil.EncodeHex(id[:])
	tx := iotago.NewTransactionID(iotago.SlotIndex(nd.U32("slot")), anyID("tx"))
	meta := &nodeapi.BlockMetadataResponse{BlockID: id, BlockState: nodeapi.BlockState(1 + nd.Choice("state", 4))}
	switch nd.Choice("call", 4) {
	case 0:
		n.answers = []answer{{status: 201, header: http.Header{"Location": {hex}}}}
		got, err := c.SubmitBlock(ctx, x)
		nd.Assert(err == nil && got == id, "the ID of the block is the one the node gives it")
		a := n.asked[0]
		nd.Assert(a.method == "POST" && a.target == "/api/core/v3/blocks" && a.header.Get("Content-Type") == mimeBinary && eqBytes(a.body, b), "the block is sent")
		nd.Cover("sent")
	case 1:
		n.raw(b)
		got, err := c.BlockByBlockID(ctx, id)
		nd.Assert(n.got("/api/core/v3/blocks/"+hex, mimeBinary), "the block is asked for")
		nd.Assert(err == nil && eqBytes(must(api.Encode(got)), b), "the block is the node's")
	case 2:
		n.raw(append(append([]byte(nil), b...), must(api.Encode(meta))...))
		got, err := c.BlockWithMetadataByBlockID(ctx, id)
		nd.Assert(n.got("/api/core/v3/blocks/"+hex+"/full", mimeBinary), "the block is asked for")
		nd.Assert(err == nil && eqBytes(must(api.Encode(got.Block)), b) && got.Metadata.BlockID == id && got.Metadata.BlockState == meta.BlockState, "block and metadata are the node's")
		nd.Cover("metadata")
	case 3:
		n.raw(b)
		got, err := c.TransactionIncludedBlock(ctx, tx)
		nd.Assert(n.got("/api/core/v3/transactions/"+hexutil.EncodeHex(tx[:])+"/included-block", mimeBinary), "the block is asked for")
		nd.Assert(err == nil && eqBytes(must(api.Encode(got)), b), "the block is the node's")
	}
}

var _ = nd.Reg("H_client_queries", H_client_queries)

// H_client_queries: every question goes to its route, and its answer is the node's.
func H_client_queries() {
	api := newAPI()
	c, n := newClient(api)
	ctx := context.Background()
	const core = "/api/core/v3/"
	blk := iotago.NewBlockID(iotago.SlotIndex(nd.U32("blockSlot")), anyID("block"))
	txid := iotago.NewTransactionID(iotago.SlotIndex(nd.U32("txSlot")), anyID("tx"))
	com := iotago.NewCommitmentID(iotago.SlotIndex(nd.U32("commitmentSlot")), anyID("commitment"))
	oid := iotago.OutputIDFromTransactionIDAndIndex(txid, uint16(nd.Choice("index", 2)))
	slot := []iotago.SlotIndex{0, 77, 1<<32 - 1}[nd.Choice("slot", 3)]
	text := strconv.FormatUint(uint64(slot), 10)
	acc := iotago.AccountAddress(accID(7))
	b32 := acc.Bech32(api.ProtocolParameters().Bech32HRP())
	v := nd.U64("value")
	bm := &nodeapi.BlockMetadataResponse{BlockID: blk, BlockState: nodeapi.BlockState(1 + nd.Choice("state", 2))}
	utxo := &nodeapi.UTXOChangesResponse{CommitmentID: com, CreatedOutputs: iotago.OutputIDs{oid}}
	same := func(a, b any) bool { return eqBytes(must(api.Encode(a)), must(api.Encode(b))) }
	switch nd.Choice("call", 18) {
	case 0:
		n.json(api, bm)
		got := must(c.BlockMetadataByBlockID(ctx, blk))
		nd.Assert(n.got(core+"blocks/"+hexutil.EncodeHex(blk[:])+"/metadata", mimeJSON) && same(got, bm), "block metadata is the node's")
	case 1:
		n.json(api, bm)
		got := must(c.TransactionIncludedBlockMetadata(ctx, txid))
		nd.Assert(n.got(core+"transactions/"+hexutil.EncodeHex(txid[:])+"/included-block/metadata", mimeJSON) && same(got, bm), "block metadata is the node's")
	case 2:
		x := &nodeapi.TransactionMetadataResponse{TransactionID: txid, TransactionState: nodeapi.TransactionStatePending}
		n.json(api, x)
		got := must(c.TransactionMetadata(ctx, txid))
		nd.Assert(n.got(core+"transactions/"+hexutil.EncodeHex(txid[:])+"/metadata", mimeJSON) && same(got, x), "transaction metadata is the node's")
	case 3, 4:
		x := iotago.NewCommitment(3, slot, com, anyID("roots"), v, iotago.Mana(v))
		n.json(api, x)
		if maybe("bySlot") {
			got := must(c.CommitmentBySlot(ctx, slot))
			nd.Assert(n.got(core+"commitments/by-slot/"+text, mimeJSON) && same(got, x), "commitments are the node's")
		} else {
			got := must(c.CommitmentByID(ctx, com))
			nd.Assert(n.got(core+"commitments/"+hexutil.EncodeHex(com[:]), mimeJSON) && same(got, x), "commitments are the node's")
		}
		nd.Cover("commitment")
	case 5:
		n.json(api, utxo)
		got := must(c.CommitmentUTXOChangesByID(ctx, com))
		nd.Assert(n.got(core+"commitments/"+hexutil.EncodeHex(com[:])+"/utxo-changes", mimeJSON) && same(got, utxo), "ledger changes are the node's")
	case 6:
		n.json(api, utxo)
		got := must(c.CommitmentUTXOChangesBySlot(ctx, slot))
		nd.Assert(n.got(core+"commitments/by-slot/"+text+"/utxo-changes", mimeJSON) && same(got, utxo), "ledger changes are the node's")
	case 7, 8:
		x := &nodeapi.UTXOChangesFullResponse{CommitmentID: com, CreatedOutputs: []*nodeapi.OutputWithID{{OutputID: oid, Output: basic(ed(1), iotago.BaseToken(v), 1)}}}
		n.json(api, x)
		if maybe("bySlot") {
			got := must(c.CommitmentUTXOChangesFullBySlot(ctx, slot))
			nd.Assert(n.got(core+"commitments/by-slot/"+text+"/utxo-changes/full", mimeJSON) && same(got, x), "ledger changes are the node's")
		} else {
			got := must(c.CommitmentUTXOChangesFullByID(ctx, com))
			nd.Assert(n.got(core+"commitments/"+hexutil.EncodeHex(com[:])+"/utxo-changes/full", mimeJSON) && same(got, x), "ledger changes are the node's")
		}
		nd.Cover("changes")
	case 9:
		x := &nodeapi.OutputMetadata{OutputID: oid, BlockID: blk, Included: &nodeapi.OutputInclusionMetadata{Slot: 5, TransactionID: txid, CommitmentID: com}, LatestCommitmentID: com}
		n.json(api, x)
		got := must(c.OutputMetadataByID(ctx, oid))
		nd.Assert(n.got(core+"outputs/"+hexutil.EncodeHex(oid[:])+"/metadata", mimeJSON) && same(got, x), "output metadata is the node's")
	case 10:
		x := &nodeapi.CongestionResponse{Slot: 5, Ready: nd.Bool("ready"), ReferenceManaCost: iotago.Mana(v), BlockIssuanceCredits: iotago.BlockIssuanceCredits(v)}
		n.json(api, x)
		var got *nodeapi.CongestionResponse
		want := core + "accounts/" + b32 + "/congestion"
		fixed := iotago.NewCommitmentID(3, iotago.Identifier{1})
		switch nd.Choice("options", 3) {
		case 0:
			got = must(c.Congestion(ctx, &acc, 0))
		case 1:
			got = must(c.Congestion(ctx, &acc, 12))
			want += "?workScore=12"
		case 2:
			got = must(c.Congestion(ctx, &acc, 12, fixed))
			want += "?commitmentId=" + fixed.ToHex() + "&workScore=12"
		}
		nd.Assert(n.got(want, mimeJSON) && *got == *x, "congestion is the node's")
		nd.Cover("congestion")
	case 11:
		x := &nodeapi.ValidatorResponse{AddressBech32: b32, StakingEndEpoch: 5, PoolStake: iotago.BaseToken(v), FixedCost: iotago.Mana(v), Active: nd.Bool("active")}
		n.json(api, x)
		got := must(c.Validator(ctx, &acc))
		nd.Assert(n.got(core+"validators/"+b32, mimeJSON) && *got == *x, "validators are the node's")
	case 12:
		x := &nodeapi.ManaRewardsResponse{StartEpoch: 1, EndEpoch: 2, Rewards: iotago.Mana(v), LatestCommittedEpochPoolRewards: 3}
		n.json(api, x)
		got := must(c.Rewards(ctx, oid))
		nd.Assert(n.got(core+"rewards/"+hexutil.EncodeHex(oid[:]), mimeJSON) && *got == *x, "rewards are the node's")
	case 13:
		x := &nodeapi.CommitteeResponse{Committee: []*nodeapi.CommitteeMemberResponse{}, TotalStake: iotago.BaseToken(v), TotalValidatorStake: 1, Epoch: 5}
		n.json(api, x)
		if maybe("epoch") {
			got := must(c.Committee(ctx, iotago.EpochIndex(slot)))
			nd.Assert(n.got(core+"committee?epoch="+text, mimeJSON) && same(got, x), "the committee is the node's")
		} else {
			got := must(c.Committee(ctx))
			nd.Assert(n.got(core+"committee", mimeJSON) && same(got, x), "the committee is the node's")
		}
	case 14:
		x := &nodeapi.IssuanceBlockHeaderResponse{StrongParents: iotago.BlockIDs{blk}, LatestParentBlockIssuingTime: anyTime("time"), LatestFinalizedSlot: 5, LatestCommitment: iotago.NewCommitment(3, 5, com, anyID("roots"), v, 1)}
		n.json(api, x)
		got := must(c.BlockIssuance(ctx))
		nd.Assert(n.got(core+"blocks/issuance", mimeJSON) && same(got, x), "the issuance information is the node's")
	case 15:
		e := newTxEnv(api, 60)
		e.in(basic(ed(1), 1, 0), 50)
		e.out(basic(ed(2), iotago.BaseToken(v), 0))
		nd.Assume(v > 0 && v < 1<<40)
		b := must(api.Encode(e.tx))
		n.raw(b)
		got := must(c.TransactionByID(ctx, txid))
		nd.Assert(n.got(core+"transactions/"+hexutil.EncodeHex(txid[:]), mimeBinary) && eqBytes(must(api.Encode(got)), b), "transactions are the node's")
		nd.Cover("transaction")
	case 16:
		x := &nodeapi.NetworkMetricsResponse{BlocksPerSecond: 1.5}
		n.json(api, x)
		nd.Assert(*must(c.NetworkMetrics(ctx)) == *x && n.got(core+"network/metrics", ""), "metrics are the node's")
	case 17:
		x := &nodeapi.ValidatorsResponse{Validators: []*nodeapi.ValidatorResponse{}, PageSize: 3, Cursor: "c"}
		n.json(api, x)
		want := core + "validators"
		var got *nodeapi.ValidatorsResponse
		switch nd.Choice("page", 3) {
		case 0:
			got = must(c.Validators(ctx, 0))
		case 1:
			got = must(c.Validators(ctx, uint64(slot)+1))
			want += "?pageSize=" + strconv.FormatUint(uint64(slot)+1, 10)
		case 2:
			got = must(c.Validators(ctx, 9, "0,1"))
			want += "?cursor=0%2C1&pageSize=9"
		}
		nd.Assert(n.got(want, mimeJSON) && same(got, x), "pages are the node's")
		nd.Cover("page")
	}
	nd.Assert(len(n.asked) == 0 && len(n.answers) == 0, "one question is one request")
}

var _ = nd.Reg("H_client_pages", H_client_pages)

// H_client_pages: all pages are collected, in order, up to the limit.
func H_client_pages() {
	api := newAPI()
	c, n := newClient(api)
	ctx := context.Background()
	pages := 1 + nd.Choice("pages", 3)
	var all []*nodeapi.ValidatorResponse
	limit := nd.Choice("limit", 5) // 0: none
	asked := pages
	if limit > 0 && limit < pages {
		asked = limit
	}
	cursor := []string{"", "1", "x2", ""}
	for i := 0; i < pages; i++ {
		var vs []*nodeapi.ValidatorResponse
		for j := nd.Choice("validators", 3); j > 0; j-- {
			vs = append(vs, &nodeapi.ValidatorResponse{AddressBech32: "a", PoolStake: iotago.BaseToken(nd.U64("stake"))})
		}
		p := &nodeapi.ValidatorsResponse{Validators: vs, PageSize: 2}
		if i < pages-1 {
			p.Cursor = cursor[i+1]
		}
		n.json(api, p)
		if i < asked {
			all = append(all, vs...)
		}
	}
	var got *nodeapi.ValidatorsResponse
	var complete bool
	var err error
	if limit > 0 {
		got, complete, err = c.ValidatorsAll(ctx, limit)
	} else {
		got, complete, err = c.ValidatorsAll(ctx)
	}
	nd.Assert(err == nil && complete == (asked == pages), "the limit of pages is kept")
	nd.Assert(len(n.asked) == asked, "every page is asked for once")
	for i, a := range n.asked {
		want := "/api/core/v3/validators"
		if i > 0 {
			want += "?cursor=" + cursor[i]
		}
		nd.Assert(a.target == want, "pages are asked for by their cursor")
	}
	nd.Assert(len(got.Validators) == len(all), "all validators are there")
	for i, v := range all {
		nd.Assert(*got.Validators[i] == *v, "validators come in order")
	}
	nd.Cover("done")
}

func anyQuery() (nodeclient.IndexerQuery, string) {
	switch nd.Choice("query", 7) {
	case 0:
		return &nodeapi.OutputsQuery{}, ""
	case 1:
		return &nodeapi.BasicOutputsQuery{}, "/basic"
	case 2:
		return &nodeapi.AccountsQuery{}, "/account"
	case 3:
		return &nodeapi.AnchorsQuery{}, "/anchor"
	case 4:
		return &nodeapi.FoundriesQuery{}, "/foundry"
	case 5:
		return &nodeapi.NFTsQuery{}, "/nft"
	}
	return &nodeapi.DelegationOutputsQuery{}, "/delegation"
}

var _ = nd.Reg("H_client_indexer", H_client_indexer)

// H_client_indexer: queries of the indexer give all their outputs.
func H_client_indexer() {
	api := newAPI()
	c, n := newClient(api)
	ctx := context.Background()
	n.json(api, &nodeapi.RoutesResponse{Routes: []iotago.PrefixedStringUint8{"indexer/v2"}})
	ix := must(c.Indexer(ctx))
	n.asked = nil
	e := newTxEnv(api, 60)
	e.in(basic(ed(1), 1, 0), 50)
	kind := nd.Choice("kind", 5)
	var want []iotago.TxEssenceOutput
	for i := 0; i < 3; i++ {
		o := kindOutput(1+kind, iotago.BaseToken(nd.U64("amount")), 3).(iotago.TxEssenceOutput)
		want = append(want, o)
		e.out(o)
	}
	id := must(e.tx.ID())
	oid := func(i int) iotago.OutputID { return iotago.OutputIDFromTransactionIDAndIndex(id, uint16(i)) }
	output := func(i int) {
		n.raw(must(api.Encode(&nodeapi.OutputResponse{Output: want[i], OutputIDProof: must(iotago.OutputIDProofFromTransaction(e.tx, uint16(i)))})))
	}
	pages := nd.Choice("pages", 3)
	page := func(i int, cursor string) {
		n.json(api, &nodeapi.IndexerResponse{CommittedSlot: 9, PageSize: 1, Items: iotago.HexOutputIDs{iotago.HexOutputID(oid(i).ToHex())}, Cursor: cursor})
	}
	q, path := anyQuery()
	res := must(ix.Outputs(ctx, q))
	for i := 0; i < pages; i++ {
		cursor := ""
		if i < pages-1 {
			cursor = "k1"
		}
		page(i, cursor)
		nd.Assert(res.Next() && res.Error == nil, "there is a page")
		t := n.asked[len(n.asked)-1].target
		route, query, _ := strings.Cut(t, "?")
		nd.Assert(route == "/api/indexer/v2/outputs"+path, "every kind of query has its route")
		params := strings.Split(query, "&")
		has := false
		for _, p := range params {
			if i > 0 && p == "cursor=k1" {
				has = true
			}
		}
		nd.Assert(has == (i > 0), "the next page is asked for")
		output(i)
		got, err := res.Outputs(ctx)
		nd.Assert(err == nil && len(got) == 1 && got[0].Equal(want[i]), "the outputs are those of the page")
	}
	if pages == 0 {
		n.json(api, &nodeapi.IndexerResponse{CommittedSlot: 9, PageSize: 1, Items: iotago.HexOutputIDs{}})
	}
	nd.Assert(!res.Next() && len(n.answers) == 0 && res.Error == nil, "there is no page after the last")
	if maybe("refused") {
		again := must(ix.Outputs(ctx, q))
		n.answers = append(n.answers, answer{status: 503})
		nd.Assert(!again.Next() && again.Error != nil, "a refused page is an error")
	}
	nd.Cover("done")
}

var _ = nd.Reg("H_client_single", H_client_single)

// H_client_single: the output of a chain is the one the indexer names.
func H_client_single() {
	api := newAPI()
	c, n := newClient(api)
	ctx := context.Background()
	n.json(api, &nodeapi.RoutesResponse{Routes: []iotago.PrefixedStringUint8{"indexer/v2"}})
	ix := must(c.Indexer(ctx))
	n.asked = nil
	kind := nd.Choice("kind", 5)
	amount := iotago.BaseToken(nd.U64("amount"))
	hrp := api.ProtocolParameters().Bech32HRP()
	var o iotago.TxEssenceOutput
	del := iotago.DelegationID(accID(6))
	if kind == 0 {
		o = delegation(amount, del, 1, 2)
	} else {
		o = kindOutput(kind, amount, 3).(iotago.TxEssenceOutput)
	}
	e := newTxEnv(api, 60)
	e.in(basic(ed(1), 1, 0), 50)
	e.out(o)
	id := iotago.OutputIDFromTransactionIDAndIndex(must(e.tx.ID()), 0)
	found := maybe("found")
	res := &nodeapi.IndexerResponse{CommittedSlot: iotago.SlotIndex(nd.U32("committed")), PageSize: 1, Items: iotago.HexOutputIDs{}}
	claimed := id
	if found {
		claimed[nd.Choice("byte", 2)*35] ^= nd.U8("tamper")
		res.Items = iotago.HexOutputIDs{iotago.HexOutputID(claimed.ToHex())}
	}
	n.json(api, res)
	n.raw(must(api.Encode(&nodeapi.OutputResponse{Output: o, OutputIDProof: must(iotago.OutputIDProofFromTransaction(e.tx, 0))})))
	var gotID *iotago.OutputID
	var got iotago.Output
	var slot iotago.SlotIndex
	var err error
	target := ""
	switch kind {
	case 0:
		var x *iotago.DelegationOutput
		gotID, x, slot, err = ix.Delegation(ctx, del)
		got, target = x, "delegation/"+hexutil.EncodeHex(del[:])
	case 1:
		a := iotago.AccountAddress(accID(7))
		var x *iotago.AccountOutput
		gotID, x, slot, err = ix.Account(ctx, &a)
		got, target = x, "account/"+a.Bech32(hrp)
	case 2:
		a := iotago.NFTAddress(accID(8))
		var x *iotago.NFTOutput
		gotID, x, slot, err = ix.NFT(ctx, &a)
		got, target = x, "nft/"+a.Bech32(hrp)
	case 3:
		a := iotago.AnchorAddress(accID(9))
		var x *iotago.AnchorOutput
		gotID, x, slot, err = ix.Anchor(ctx, &a)
		got, target = x, "anchor/"+a.Bech32(hrp)
	case 4:
		var x *iotago.FoundryOutput
		f := must(o.(*iotago.FoundryOutput).FoundryID())
		gotID, x, slot, err = ix.Foundry(ctx, f)
		got, target = x, "foundry/"+hexutil.EncodeHex(f[:])
	}
	nd.Assert(n.asked[0].method == "GET" && n.asked[0].target == "/api/indexer/v2/outputs/"+target, "the output of the chain is asked for")
	nd.Assert(slot == res.CommittedSlot, "the slot is the node's")
	nd.Assert((err == nil) == (found && claimed == id), "there is an output if the node proves one")
	if !found {
		nd.Assert(ierrors.Is(err, nodeclient.ErrIndexerNotFound) && len(n.asked) == 1, "what the indexer does not know is not found")
	}
	if err != nil {
		nd.Cover("none")
		return
	}
	nd.Assert(*gotID == id && got.Equal(o), "the output is the node's")
	nd.Cover("output")
}

var _ = nd.Reg("H_client_params", H_client_params)

// H_client_params: every filter of a query is part of the request.
func H_client_params() {
	var want []string
	set := func(name, value string) bool {
		b := maybe(name)
		if b {
			want = append(want, name+"="+value)
		}
		return b
	}
	yes := func(name string) *bool {
		switch nd.Choice(name, 3) {
		case 1:
			b := true
			want = append(want, name+"=true")
			return &b
		case 2:
			b := false
			want = append(want, name+"=false")
			return &b
		}
		return nil
	}
	text := func(name string) string {
		if set(name, "v"+name) {
			return "v" + name
		}
		return ""
	}
	slot := func(name string) iotago.SlotIndex {
		if set(name, "77") {
			return 77
		}
		return 0
	}
	// two of the groups of filters at a time
	g1, g2 := nd.Choice("group1", 7), nd.Choice("group2", 7)
	group := func(i int) bool { return g1 == i || g2 == i }
	nd.Assume(g1 < g2)
	var page nodeapi.IndexerCursorParams
	var lock nodeapi.IndexerTimelockParams
	var exp nodeapi.IndexerExpirationParams
	var made nodeapi.IndexerCreationParams
	var sdr nodeapi.IndexerStorageDepositParams
	var nat nodeapi.IndexerNativeTokenParams
	var by nodeapi.IndexerUnlockableByAddressParams
	kind := nd.Choice("kind", 7)
	if group(0) {
		if set("pageSize", "5") {
			page.PageSize = 5
		}
		if set("cursor", "c1") {
			s := "c1"
			page.Cursor = &s
		}
		made = nodeapi.IndexerCreationParams{CreatedBefore: slot("createdBefore"), CreatedAfter: slot("createdAfter")}
	}
	tokens, locks, unlockable := kind < 3, kind == 1 || kind == 3, kind != 2 && kind != 6
	if group(1) && locks {
		lock = nodeapi.IndexerTimelockParams{HasTimelock: yes("hasTimelock"), TimelockedBefore: slot("timelockedBefore"), TimelockedAfter: slot("timelockedAfter")}
	}
	if group(2) && locks {
		exp = nodeapi.IndexerExpirationParams{HasExpiration: yes("hasExpiration"), ExpiresBefore: slot("expiresBefore"), ExpiresAfter: slot("expiresAfter"), ExpirationReturnAddressBech32: text("expirationReturnAddress")}
	}
	if group(3) && locks {
		sdr = nodeapi.IndexerStorageDepositParams{HasStorageDepositReturn: yes("hasStorageDepositReturn"), StorageDepositReturnAddressBech32: text("storageDepositReturnAddress")}
	}
	if group(4) && tokens {
		nat = nodeapi.IndexerNativeTokenParams{HasNativeToken: yes("hasNativeToken"), NativeToken: text("nativeToken")}
	}
	if group(5) && unlockable {
		by = nodeapi.IndexerUnlockableByAddressParams{UnlockableByAddressBech32: text("unlockableByAddress")}
	}
	opt := func(name string) string {
		if !group(6) {
			return ""
		}
		return text(name)
	}
	var q nodeclient.IndexerQuery
	switch kind {
	case 0:
		q = &nodeapi.OutputsQuery{IndexerCursorParams: page, IndexerNativeTokenParams: nat, IndexerCreationParams: made, IndexerUnlockableByAddressParams: by}
	case 1:
		q = &nodeapi.BasicOutputsQuery{IndexerCursorParams: page, IndexerTimelockParams: lock, IndexerExpirationParams: exp, IndexerCreationParams: made, IndexerStorageDepositParams: sdr, IndexerNativeTokenParams: nat, IndexerUnlockableByAddressParams: by, AddressBech32: opt("address"), SenderBech32: opt("sender"), Tag: opt("tag")}
	case 2:
		q = &nodeapi.FoundriesQuery{IndexerCursorParams: page, IndexerCreationParams: made, IndexerNativeTokenParams: nat, AccountAddressBech32: opt("accountAddress")}
	case 3:
		q = &nodeapi.NFTsQuery{IndexerCursorParams: page, IndexerTimelockParams: lock, IndexerExpirationParams: exp, IndexerStorageDepositParams: sdr, IndexerCreationParams: made, IndexerUnlockableByAddressParams: by, AddressBech32: opt("address"), SenderBech32: opt("sender"), IssuerBech32: opt("issuer"), Tag: opt("tag")}
	case 4:
		q = &nodeapi.AccountsQuery{IndexerCursorParams: page, IndexerCreationParams: made, IndexerUnlockableByAddressParams: by, AddressBech32: opt("address"), SenderBech32: opt("sender"), IssuerBech32: opt("issuer")}
	case 5:
		q = &nodeapi.AnchorsQuery{IndexerCursorParams: page, IndexerCreationParams: made, IndexerUnlockableByAddressParams: by, StateControllerBech32: opt("stateController"), GovernorBech32: opt("governor"), IssuerBech32: opt("issuer")}
	case 6:
		q = &nodeapi.DelegationOutputsQuery{IndexerCursorParams: page, IndexerCreationParams: made, AddressBech32: opt("address"), ValidatorBech32: opt("validator")}
	}
	got := must(q.URLParams())
	n := 0
	for _, p := range strings.Split(got, "&") {
		if p == "" {
			continue
		}
		n++
		is := false
		for _, w := range want {
			is = is || p == w
		}
		nd.Assert(is, "only filters that are set are part of the query")
	}
	nd.Assert(n == len(want), "every filter is part of the query")
	next := "n7"
	q.SetOffset(&next)
	has := false
	for _, p := range strings.Split(must(q.URLParams()), "&") {
		has = has || p == "cursor=n7"
	}
	nd.Assert(has, "the next page is asked for by its cursor")
	nd.Cover("done")
}

var _ = nd.Reg("H_client_manage", H_client_manage)

// H_client_manage: peers are managed at their routes.
func H_client_manage() {
	api := newAPI()
	c, n := newClient(api)
	ctx := context.Background()
	n.json(api, &nodeapi.RoutesResponse{Routes: []iotago.PrefixedStringUint8{"management/v1"}})
	m := must(c.Management(ctx))
	n.asked = nil
	const root = "/api/management/v1/peers"
	x := &nodeapi.PeerInfo{ID: "p1", MultiAddresses: []iotago.PrefixedStringUint8{"/ip4"}, Alias: "al", Relation: "manual", Connected: nd.Bool("connected"), GossipMetrics: &nodeapi.PeerGossipMetrics{PacketsReceived: nd.U32("received"), PacketsSent: nd.U32("sent")}}
	same := func(a, b any) bool { return eqBytes(must(api.Encode(a)), must(api.Encode(b))) }
	switch nd.Choice("call", 4) {
	case 0:
		n.json(api, x)
		nd.Assert(same(must(m.PeerByID(ctx, "p1")), x) && n.got(root+"/p1", mimeJSON), "peers are the node's")
	case 1:
		n.answers = []answer{{status: []int{204, 404}[nd.Choice("status", 2)]}}
		ok := n.answers[0].status == 204
		err := m.RemovePeerByID(ctx, "p1")
		nd.Assert((err == nil) == ok && n.asked[0].method == "DELETE" && n.asked[0].target == root+"/p1", "the peer is removed")
	case 2:
		y := &nodeapi.PeersResponse{Peers: []*nodeapi.PeerInfo{x}}
		n.json(api, y)
		nd.Assert(same(must(m.Peers(ctx)), y) && n.got(root, mimeJSON), "peers are the node's")
	case 3:
		n.json(api, x)
		want := &nodeapi.AddPeerRequest{MultiAddress: "/ip4"}
		var got *nodeapi.PeerInfo
		if maybe("alias") {
			want.Alias = "al"
			got = must(m.AddPeer(ctx, "/ip4", "al"))
		} else {
			got = must(m.AddPeer(ctx, "/ip4"))
		}
		sent := &nodeapi.AddPeerRequest{}
		a := n.asked[0]
		nd.Assert(a.method == "POST" && a.target == root && a.header.Get("Content-Type") == mimeJSON && api.JSONDecode(a.body, sent) == nil && *sent == *want && same(got, x), "the peer is added")
		nd.Cover("added")
	}
}

var _ = nd.Reg("H_client_issue", H_client_issue)

// H_client_issue: payloads go to the block issuer as they are, transactions
// allot it what their block costs.
func H_client_issue() {
	api := newAPI()
	c, n := newClient(api)
	ctx := context.Background()
	n.json(api, &nodeapi.RoutesResponse{Routes: []iotago.PrefixedStringUint8{"blockissuer/v1"}})
	bi := must(c.BlockIssuer(ctx))
	n.asked = nil
	const root = "/api/blockissuer/v1/"
	issuer := iotago.AccountAddress(accID(70))
	hrp := api.ProtocolParameters().Bech32HRP()
	kind := nd.Choice("kind", 4)
	addr := issuer.Bech32(hrp)
	if kind == 3 {
		addr = ed(9).Bech32(hrp)
	}
	target := []uint8{0, 5}[nd.Choice("target", 2)]
	nd.Assume(target == 0 || kind == 1)
	n.json(api, &nodeapi.BlockIssuerInfo{BlockIssuerAddress: addr, PowTargetTrailingZeros: target})
	created := &nodeapi.BlockCreatedResponse{BlockID: iotago.NewBlockID(iotago.SlotIndex(nd.U32("blockSlot")), anyID("block"))}
	sent := func(data []byte, com iotago.CommitmentID) {
		a := n.asked[len(n.asked)-1]
		nonce, err := strconv.ParseUint(a.header.Get("X-IOTA-BlockIssuer-PoW-Nonce"), 10, 64)
		if target > 0 {
			nd.Assert(zeros(data, nonce) >= int(target), "the nonce is worth what the block issuer requires")
		}
		nd.Assert(a.method == "POST" && a.target == root+"issue" && eqBytes(a.body, data) && a.header.Get("Content-Type") == mimeBinary, "the payload is sent to the block issuer")
		nd.Assert(err == nil && a.header.Get("X-IOTA-BlockIssuer-Commitment-ID") == hexutil.EncodeHex(com[:]), "nonce and commitment are sent along")
		nd.Assert(n.asked[0].method == "GET" && n.asked[0].target == root+"info", "the block issuer is asked what it requires")
	}
	switch kind {
	case 0:
		got := must(bi.Info(ctx))
		nd.Assert(got.BlockIssuerAddress == addr && got.PowTargetTrailingZeros == target, "the information is the block issuer's")
	case 1:
		p := &iotago.TaggedData{Tag: []byte{1, 2}, Data: []byte{3, 4, byte(nd.Choice("content", 4))}}
		if target == 0 {
			p = &iotago.TaggedData{Tag: nd.Bytes("tag", 2), Data: nd.Bytes("data", 3)}
		}
		com := iotago.NewCommitmentID(iotago.SlotIndex(nd.U32("slot")), anyID("commitment"))
		n.json(api, created)
		got, err := bi.SendPayload(ctx, p, com)
		nd.Assert(err == nil && got.BlockID == created.BlockID, "the block is the one of the block issuer")
		sent(must(api.Encode(p)), com)
		nd.Cover("payload")
	case 2, 3:
		k := newKey(1)
		free := basic(k.addr, rich, 1)
		slot := iotago.SlotIndex(20000)
		tb := builder.NewTransactionBuilder(api, iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForEd25519Address(k.addr, k.priv)))
		tb.AddInput(&builder.TxInput{UnlockTarget: k.addr, InputID: outID(2, slot), Input: basic(k.addr, rich, 1<<50)}).AddOutput(free)
		if maybe("slot") {
			tb.SetCreationSlot(slot)
		}
		rmc := iotago.Mana(nd.Range64("rmc", 1, 1000))
		com := iotago.NewCommitment(3, slot, iotago.NewCommitmentID(slot-1, iotago.Identifier{1}), anyID("roots"), 1, rmc)
		n.json(api, &nodeapi.IssuanceBlockHeaderResponse{StrongParents: iotago.BlockIDs{created.BlockID}, LatestParentBlockIssuingTime: api.TimeProvider().SlotStartTime(slot), LatestFinalizedSlot: 5, LatestCommitment: com})
		n.json(api, created)
		p, got, err := bi.SendPayloadWithTransactionBuilder(ctx, tb, 0)
		if kind == 3 {
			nd.Assert(err != nil, "block issuers are accounts")
			nd.Cover("refused")
			return
		}
		nd.Assert(err == nil && got.BlockID == created.BlockID, "the block is the one of the block issuer")
		sent(must(api.Encode(p)), must(com.ID()))
		tx := p.(*iotago.SignedTransaction).Transaction
		nd.Assert(tx.CreationSlot == slot, "the transaction is created in the slot of the commitment, if not in another")
		block := must(builder.NewBasicBlockBuilder(api).IssuingTime(api.TimeProvider().SlotStartTime(slot)).SlotCommitmentID(must(com.ID())).LatestFinalizedSlot(5).StrongParents(iotago.BlockIDs{created.BlockID}).Payload(p).Build())
		nd.Assert(len(tx.Allotments) == 1 && tx.Allotments[0].AccountID == issuer.AccountID() && tx.Allotments[0].Mana == must(block.ManaCost(rmc)), "the block issuer is allotted what the block costs")
		nd.Cover("transaction")
	}
}

var _ = nd.Reg("H_client_do", H_client_do)

// H_client_do: requests of one's own go to the node as they are given.
func H_client_do() {
	api := newAPI()
	c, n := newClient(api)
	ctx := context.Background()
	method := []string{"GET", "POST", "PUT", "DELETE"}[nd.Choice("method", 4)]
	route := []string{"/api/own/v1/x", "/api/own/v1/x?a=b", "/api"}[nd.Choice("route", 3)]
	data := nd.Bytes("data", 3)
	peer := &nodeapi.AddPeerRequest{MultiAddress: "/ip4/1/tcp/2", Alias: "p"}
	var req any
	var body []byte
	kind := ""
	switch nd.Choice("body", 3) {
	case 1:
		req, body, kind = &nodeclient.RawDataEnvelope{Data: data}, data, mimeBinary
	case 2:
		req, body, kind = peer, must(api.JSONEncode(peer)), mimeJSON
	}
	var hook nodeclient.RequestHeaderHook
	hooked := maybe("hook")
	if hooked {
		hook = func(h http.Header) { h.Set("X-Own", "1") }
	}
	answerData := nd.Bytes("answer", 3)
	refused := maybe("refused")
	if refused {
		n.answers = []answer{{status: 404}}
	} else {
		n.raw(answerData)
	}
	res := &nodeclient.RawDataEnvelope{}
	var err error
	if hooked {
		_, err = c.DoWithRequestHeaderHook(ctx, method, route, hook, req, res)
	} else {
		_, err = c.Do(ctx, method, route, req, res)
	}
	a := n.asked[len(n.asked)-1]
	nd.Assert(len(n.asked) == 1 && a.method == method && a.target == route, "one request goes where it should")
	nd.Assert(a.header.Get("Content-Type") == kind && (a.header.Get("X-Own") == "1") == hooked, "its headers tell what it holds")
	if kind == mimeJSON {
		got := &nodeapi.AddPeerRequest{}
		nd.Assert(api.JSONDecode(a.body, got) == nil && *got == *peer, "its body is the object given")
	} else {
		nd.Assert(eqBytes(a.body, body), "its body is the one given")
	}
	if refused {
		nd.Assert(ierrors.Is(err, nodeclient.ErrHTTPNotFound), "a refusal is an error")
		nd.Cover("refused")
		return
	}
	nd.Assert(err == nil && eqBytes(res.Data, answerData), "the answer is the node's")
	nd.Cover("done")
}
