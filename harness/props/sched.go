package props

import (
	"context"
	"encoding/binary"
	"errors"
	"math/bits"
	"time"

	mqtt "github.com/eclipse/paho.mqtt.golang"
	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
	nodeapi "github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/blockissuer/pow"
	"github.com/iotaledger/iota.go/v4/hexutil"
	"github.com/iotaledger/iota.go/v4/nodeclient"

	"verif/harness/nd"
)

// zeros counts the trailing zeroes a nonce has for data.
func zeros(data []byte, nonce uint64) int {
	d := blake2b.Sum256(data)
	h := blake2b.Sum256(binary.LittleEndian.AppendUint64(d[:], nonce))
	return bits.TrailingZeros64(binary.LittleEndian.Uint64(h[24:]))
}

var _ = nd.Reg("H_pow_mine", H_pow_mine)

// H_pow_mine: mining ends with a nonce that is worth what was asked for, under every schedule.
func H_pow_mine() {
	workers := 1 + nd.Choice("workers", 2+nd.Tier())
	target := []int{0, 3}[nd.Choice("target", 2)]
	data := [][]byte{{}, []byte("some"), []byte("data")}[nd.Choice("data", 3)]
	ops := 80
	if workers == 1 && maybe("any") {
		data, ops = nd.Bytes("data", 2), 12
	}
	nd.Schedules(preemptions(workers), ops, 5)
	nonce, err := pow.New(workers).Mine(context.Background(), data, target)
	nd.Assert(err == nil, "mining that is not cancelled succeeds")
	nd.Assert(zeros(data, nonce) >= target, "the nonce is worth what was asked for")
	nd.Assert(nd.Settle() == 0, "no goroutine is left behind")
	nd.Cover("done")
}

var _ = nd.Reg("H_pow_cancel", H_pow_cancel)

// H_pow_cancel: mining ends soon after it is cancelled, whenever that is.
func H_pow_cancel() {
	workers := 1 + nd.Choice("workers", 2+nd.Tier())
	easy := maybe("easy")
	target := 64 // never reached in the runs considered
	if easy {
		target = 0
	}
	data := []byte("data")
	nd.Schedules(preemptions(workers), -300, 5)
	ctx, cancel := context.WithCancel(context.Background())
	if maybe("before") {
		cancel()
	} else {
		go cancel()
	}
	nonce, err := pow.New(workers).Mine(ctx, data, target)
	if err == nil {
		nd.Assert(easy && zeros(data, nonce) >= target, "the nonce is worth what was asked for")
	} else {
		nd.Assert(err == pow.ErrCanceled, "a cancelled search says so")
	}
	cancel()
	nd.Assert(nd.Settle() == 0, "no goroutine is left behind")
	nd.Cover("done")
}

var _ = nd.Reg("H_pow_bounds", H_pow_bounds)

// H_pow_bounds: more zeroes than there can be are refused.
func H_pow_bounds() {
	target := 65 + int(nd.U16("above"))
	_, err := pow.New(1+nd.Choice("workers", 3)).Mine(context.Background(), nd.Bytes("data", 2), target)
	nd.Assert(err == pow.ErrInvalidTargetTrailingZeroes, "impossible targets are refused")
	msg, nonce := nd.Bytes("msg", nd.Choice("length", 4)), nd.U64("nonce")
	h := blake2b.Sum256(binary.LittleEndian.AppendUint64(msg, nonce))
	nd.Assert(pow.TrailingZeros(msg, nonce) == bits.TrailingZeros64(binary.LittleEndian.Uint64(h[24:])), "zeroes are counted at the end of the hash of message and nonce")
	nd.Cover("done")
}

func preemptions(workers int) int {
	if workers > 2 {
		return 1
	}
	return 1 + nd.Tier()
}

// ---- event client ----

// broker is an MQTT client that keeps its subscriptions.
type broker struct {
	mqtt.Client
	topics  []string
	cbs     []mqtt.MessageHandler
	left    []string
	offline bool
	refuse  error
}

type mqToken struct{ err error }

func (t mqToken) Wait() bool                     { return true }
func (t mqToken) WaitTimeout(time.Duration) bool { return true }
func (t mqToken) Done() <-chan struct{}          { c := make(chan struct{}); close(c); return c }
func (t mqToken) Error() error                   { return t.err }

func (b *broker) IsConnected() bool      { return !b.offline }
func (b *broker) IsConnectionOpen() bool { return !b.offline }
func (b *broker) Connect() mqtt.Token    { return mqToken{b.refuse} }
func (b *broker) Disconnect(uint)        { b.offline = true }
func (b *broker) Subscribe(topic string, qos byte, cb mqtt.MessageHandler) mqtt.Token {
	if b.refuse == nil {
		b.topics, b.cbs = append(b.topics, topic), append(b.cbs, cb)
	}
	return mqToken{b.refuse}
}
func (b *broker) Unsubscribe(topics ...string) mqtt.Token {
	b.left = append(b.left, topics...)
	return mqToken{b.refuse}
}

type message struct {
	mqtt.Message
	payload []byte
}

func (m message) Payload() []byte { return m.payload }
func (m message) Ack()            {}

func newEvents() (*nodeclient.EventAPIClient, *broker, iotago.API) {
	api := newAPI()
	c, _ := newClient(api)
	b := &broker{}
	return &nodeclient.EventAPIClient{Client: c, MQTTClient: b, Errors: make(chan error, 2)}, b, api
}

// first takes the first message from a subscription.
func first[T any](b *broker, c <-chan T, sub *nodeclient.EventAPIClientSubscription, topic string, payload []byte) T {
	nd.Assert(sub.Error() == nil && len(b.topics) == 1 && b.topics[0] == topic+"/raw", "the subscription is for its topic")
	go b.cbs[0](b, message{payload: payload})
	v := <-c
	nd.Assert(sub.Close() == nil && len(b.left) == 1 && b.left[0] == b.topics[0], "closing leaves the topic")
	return v
}

var _ = nd.Reg("H_events_new", H_events_new)

// H_events_new: the event client of a node that has one is a client of the broker of that node.
func H_events_new() {
	api := newAPI()
	c, n := newClient(api)
	secure := maybe("secure")
	if secure {
		c.BaseURL = "https://node:123"
	}
	has := maybe("has")
	routes := &nodeapi.RoutesResponse{Routes: []iotago.PrefixedStringUint8{"core/v3"}}
	if has {
		routes.Routes = append(routes.Routes, "mqtt/v2")
	}
	n.json(api, routes)
	ev, err := c.EventAPI(context.Background())
	nd.Assert((err == nil) == has, "there is an event client if the node has the plugin")
	if has {
		r := ev.MQTTClient.OptionsReader()
		u := r.Servers()
		want := "ws://node/api/mqtt/v2"
		if secure {
			want = "wss://node:123/api/mqtt/v2"
		}
		nd.Assert(r.ClientID() != "", "the client has a name")
		nd.Assert(!r.Order(), "a subscription does not wait for others")
		nd.Assert(len(u) == 1 && u[0].String() == want && ev.Client == c && !ev.MQTTClient.IsConnected(), "the broker is the node's")
		nd.Cover("client")
	}
}

var _ = nd.Reg("H_events_topics", H_events_topics)

// H_events_topics: every subscription is for its topic and hands out what the node published there.
func H_events_topics() {
	ev, b, api := newEvents()
	ctx := context.Background()
	nd.Assert(ev.Connect(ctx) == nil, "the client connects")
	hrp := api.ProtocolParameters().Bech32HRP()
	nd.Schedules(-1, 0, 100)
	switch nd.Choice("object", 5) {
	case 0:
		cm := iotago.NewCommitment(3, iotago.SlotIndex(nd.U32("slot")), anyCommitmentID("previous"), anyID("roots"), nd.U64("weight"), iotago.Mana(nd.U64("rmc")))
		raw := must(api.Encode(cm))
		var got *iotago.Commitment
		if maybe("finalized") {
			c, s := ev.CommitmentsFinalized()
			got = first(b, c, s, "commitments/finalized", raw)
		} else {
			c, s := ev.CommitmentsLatest()
			got = first(b, c, s, "commitments/latest", raw)
		}
		nd.Assert(*got == *cm, "the commitment is the one published")
	case 1:
		blk := richBlock(api, nd.Choice("block", 4))
		blk.Header.LatestFinalizedSlot = iotago.SlotIndex(nd.U32("finalized"))
		blk.Header.IssuerID = iotago.AccountID(anyID("issuer"))
		raw := must(api.Encode(blk))
		tag := nd.Bytes("tag", nd.Choice("tagLen", 3))
		hex := hexutil.EncodeHex(tag)
		var got *iotago.Block
		switch nd.Choice("topic", 8) {
		case 0:
			c, s := ev.Blocks()
			got = first(b, c, s, "blocks", raw)
		case 1:
			c, s := ev.BlocksValidation()
			got = first(b, c, s, "blocks/validation", raw)
		case 2:
			c, s := ev.BlocksBasic()
			got = first(b, c, s, "blocks/basic", raw)
		case 3:
			c, s := ev.BlocksBasicWithTaggedData()
			got = first(b, c, s, "blocks/basic/tagged-data", raw)
		case 4:
			c, s := ev.BlocksBasicWithTaggedDataByTag(tag)
			got = first(b, c, s, "blocks/basic/tagged-data/"+hex, raw)
		case 5:
			c, s := ev.BlocksBasicWithTransactions()
			got = first(b, c, s, "blocks/basic/transaction", raw)
		case 6:
			c, s := ev.BlocksBasicWithTransactionsWithTaggedData()
			got = first(b, c, s, "blocks/basic/transaction/tagged-data", raw)
		default:
			c, s := ev.BlocksBasicWithTransactionsWithTaggedDataByTag(tag)
			got = first(b, c, s, "blocks/basic/transaction/tagged-data/"+hex, raw)
		}
		nd.Assert(eqBytes(must(api.Encode(got)), raw), "the block is the one published")
	case 2:
		id := anyBlockID("id")
		tx := iotago.TransactionID(id)
		md := &nodeapi.BlockMetadataResponse{BlockID: id, BlockState: nodeapi.BlockState(nd.Choice("state", 6))}
		raw := must(api.Encode(md))
		var got *nodeapi.BlockMetadataResponse
		switch nd.Choice("topic", 4) {
		case 0:
			c, s := ev.BlockMetadataTransactionIncludedBlocksByTransactionID(tx)
			got = first(b, c, s, "transactions/"+tx.ToHex()+"/included-block-metadata", raw)
		case 1:
			c, s := ev.BlockMetadataByBlockID(id)
			got = first(b, c, s, "block-metadata/"+id.ToHex(), raw)
		case 2:
			c, s := ev.BlockMetadataAcceptedBlocks()
			got = first(b, c, s, "block-metadata/accepted", raw)
		default:
			c, s := ev.BlockMetadataConfirmedBlocks()
			got = first(b, c, s, "block-metadata/confirmed", raw)
		}
		nd.Assert(got.BlockID == md.BlockID && got.BlockState == md.BlockState, "the metadata is the one published")
	case 3:
		tx := anyTxID("tx")
		md := &nodeapi.TransactionMetadataResponse{TransactionID: tx, TransactionState: nodeapi.TransactionState(nd.Choice("state", 6)), EarliestAttachmentSlot: iotago.SlotIndex(nd.U32("attachment")), TransactionFailureReason: nodeapi.TransactionFailureReason(0)}
		c, s := ev.TransactionMetadataByTransactionID(tx)
		got := first(b, c, s, "transaction-metadata/"+tx.ToHex(), must(api.Encode(md)))
		nd.Assert(*got == *md, "the metadata is the one published")
	default:
		e := newTxEnv(api, 60)
		e.in(basic(ed(1), 1, 0), 50)
		e.out(basic(ed(2), iotago.BaseToken(nd.U64("amount")), iotago.Mana(nd.U64("mana"))))
		id := iotago.OutputIDFromTransactionIDAndIndex(must(e.tx.ID()), 0)
		md := &nodeapi.OutputWithMetadataResponse{Output: e.tx.Outputs[0], OutputIDProof: must(iotago.OutputIDProofFromTransaction(e.tx, 0)),
			Metadata: &nodeapi.OutputMetadata{OutputID: id, BlockID: anyBlockID("block"), Included: &nodeapi.OutputInclusionMetadata{Slot: 7, TransactionID: id.TransactionID()}, LatestCommitmentID: anyCommitmentID("latest")}}
		raw := must(api.Encode(md))
		var got *nodeapi.OutputWithMetadataResponse
		acc, anc, nft := iotago.AccountID(accID(5)), iotago.AnchorID(accID(6)), iotago.NFTID(accID(7))
		switch nd.Choice("topic", 7) {
		case 0:
			c, s := ev.OutputWithMetadataByOutputID(id)
			got = first(b, c, s, "outputs/"+id.ToHex(), raw)
		case 1:
			c, s := ev.OutputsWithMetadataByAccountID(acc)
			got = first(b, c, s, "outputs/account/"+acc.ToAddress().Bech32(hrp), raw)
		case 2:
			c, s := ev.OutputsWithMetadataByAnchorID(anc)
			got = first(b, c, s, "outputs/anchor/"+anc.ToAddress().Bech32(hrp), raw)
		case 3:
			a := iotago.AccountAddress(acc)
			f := must(iotago.FoundryIDFromAddressAndSerialNumberAndTokenScheme(&a, 3, 0))
			c, s := ev.OutputsWithMetadataByFoundryID(f)
			got = first(b, c, s, "outputs/foundry/"+f.ToHex(), raw)
		case 4:
			c, s := ev.OutputsWithMetadataByNFTID(nft)
			got = first(b, c, s, "outputs/nft/"+nft.ToAddress().Bech32(hrp), raw)
		case 5:
			d := iotago.DelegationID(accID(8))
			c, s := ev.OutputsWithMetadataByDelegationID(d)
			got = first(b, c, s, "outputs/delegation/"+d.ToHex(), raw)
		default:
			k := nd.Choice("condition", 7)
			cond := []nodeapi.EventAPIUnlockCondition{nodeapi.EventAPIUnlockConditionAny, nodeapi.EventAPIUnlockConditionAddress, nodeapi.EventAPIUnlockConditionStorageReturn, nodeapi.EventAPIUnlockConditionExpiration,
				nodeapi.EventAPIUnlockConditionStateController, nodeapi.EventAPIUnlockConditionGovernor, nodeapi.EventAPIUnlockConditionImmutableAccount}[k]
			name := []string{"+", "address", "storage-return", "expiration", "state-controller", "governor", "immutable-account"}[k]
			c, s := ev.OutputsWithMetadataByUnlockConditionAndAddress(cond, ed(3))
			got = first(b, c, s, "outputs/unlock/"+name+"/"+ed(3).Bech32(hrp), raw)
		}
		nd.Assert(eqBytes(must(api.Encode(got)), raw), "the output is the one published")
	}
	nd.Assert(nd.Settle() == 0, "no goroutine is left behind")
	nd.Cover("done")
}

var _ = nd.Reg("H_events_stream", H_events_stream)

// H_events_stream: messages come in order, broken ones are reported, and nothing hangs once the context is cancelled.
func H_events_stream() {
	ev, b, api := newEvents()
	ev.Errors = make(chan error) // nobody listens
	nd.Schedules(1+nd.Tier(), -600, 100)
	ctx, cancel := context.WithCancel(context.Background())
	nd.Assert(ev.Connect(ctx) == nil, "the client connects")
	var want []*iotago.Commitment
	var raws [][]byte
	broken := nd.Choice("broken", 3) // 0: none
	for i := 0; i < 2; i++ {
		cm := iotago.NewCommitment(3, iotago.SlotIndex(5+i), iotago.NewCommitmentID(4, anyID("previous")), anyID("roots"), nd.U64("weight"), 7)
		raw := must(api.Encode(cm))
		if broken == 1+i {
			raw = raw[:nd.Choice("cut", 2)*40]
		} else {
			want = append(want, cm)
		}
		raws = append(raws, raw)
	}
	c, sub := ev.CommitmentsLatest()
	nd.Assert(sub.Error() == nil, "the client subscribes")
	stop := maybe("stop")
	read := len(want)
	if stop {
		read = nd.Choice("read", 2)
	}
	parallel := maybe("parallel")
	if parallel {
		for _, r := range raws {
			go b.cbs[0](b, message{payload: r})
		}
	} else {
		go func() {
			for _, r := range raws {
				b.cbs[0](b, message{payload: r})
			}
		}()
	}
	slots := iotago.SlotIndex(0)
	for i := 0; i < read && i < len(want); i++ {
		got := <-c
		if parallel {
			nd.Assert(got.Slot > 4 && got.Slot < 7 && slots != got.Slot, "every message comes once")
			slots = got.Slot
			continue
		}
		nd.Assert(*got == *want[i], "messages come in the order in which they are handed over")
	}
	if stop {
		go cancel()
	}
	left := nd.Settle()
	nd.Assert(left == 0, "no goroutine is left behind")
	select {
	case <-c:
		nd.Assert(false, "nothing comes twice")
	default:
	}
	if broken > 0 {
		nd.Cover("broken")
	}
	if stop {
		nd.Cover("stopped")
	} else {
		nd.Cover("read")
	}
	cancel()
}

var _ = nd.Reg("H_events_errors", H_events_errors)

// H_events_errors: failures are reported to those who listen, to callers who subscribe, and by panic to those who never connected.
func H_events_errors() {
	ev, b, api := newEvents()
	nd.Schedules(-1, 0, 100)
	ctx, cancel := context.WithCancel(context.Background())
	fail := errors.New("refused")
	switch nd.Choice("case", 5) {
	case 0:
		b.refuse = fail
		nd.Assert(ev.Connect(ctx) == fail, "a refused connection is reported")
	case 1:
		nd.Assert(ev.Connect(ctx) == nil, "the client connects")
		b.refuse = fail
		c, sub := ev.Blocks()
		nd.Assert(c == nil && sub.Error() == fail && sub.Close() == fail, "a refused subscription is reported")
	case 2:
		nd.Assert(ev.Connect(ctx) == nil, "the client connects")
		_, sub := ev.Blocks()
		b.refuse = fail
		nd.Assert(sub.Error() == nil && sub.Close() == fail, "a topic that cannot be left is reported")
	case 3:
		nd.Assert(ev.Connect(ctx) == nil, "the client connects")
		if maybe("closed") {
			ev.Close()
			nd.Assert(b.offline, "closing disconnects")
		} else {
			cancel()
		}
		func() {
			defer func() {
				err, _ := recover().(error)
				nd.Assert(err != nil && errors.Is(err, nodeclient.ErrEventAPIClientInactive), "inactive clients refuse subscriptions")
			}()
			ev.BlocksBasic()
		}()
		nd.Assert(len(b.topics) == 0, "inactive clients do not subscribe")
	default:
		nd.Assert(ev.Connect(ctx) == nil, "the client connects")
		switch nd.Choice("object", 5) {
		case 0:
			ev.Blocks()
		case 1:
			ev.CommitmentsFinalized()
		case 2:
			ev.BlockMetadataAcceptedBlocks()
		case 3:
			ev.TransactionMetadataByTransactionID(txID(1, 1))
		default:
			ev.OutputsWithMetadataByAccountID(accID(4))
		}
		raw := must(api.Encode(&nodeapi.RoutesResponse{Routes: []iotago.PrefixedStringUint8{"x"}}))[:nd.Choice("length", 2)]
		go b.cbs[0](b, message{payload: raw})
		err := <-ev.Errors
		nd.Assert(err != nil, "broken messages are reported to those who listen")
		nd.Assert(nd.Settle() == 0, "no goroutine is left behind")
	}
	cancel()
	nd.Cover("done")
}
