// Package models holds Go models of library code the engine replaces.
package models

import (
	"context"
	"crypto"
	"errors"
	"hash"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/blake2b"

	"github.com/iotaledger/iota-crypto-demo/pkg/bip39"
	"github.com/iotaledger/iota-crypto-demo/pkg/slip10"
	"github.com/iotaledger/iota.go/v4/nodeclient"
)

// Err is what fmt.Errorf returns under the engine.
type Err struct {
	text    string
	wrapped []error
}

func (e *Err) Error() string   { return e.text }
func (e *Err) Unwrap() []error { return e.wrapped }

// RuntimeError is the value of Go run-time panics under the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (RuntimeError) RuntimeError()   {}

// Hasher models hash.Hash over blake2b-256.
type Hasher struct{ buf []byte }

func (h *Hasher) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}
func (h *Hasher) Sum(b []byte) []byte {
	s := blake2b.Sum256(h.buf)
	return append(b, s[:]...)
}
func (h *Hasher) Reset()         { h.buf = nil }
func (h *Hasher) Size() int      { return 32 }
func (h *Hasher) BlockSize() int { return 128 }

// HashNew models crypto.Hash.New.
func HashNew(h crypto.Hash) hash.Hash {
	if h != crypto.BLAKE2b_256 {
		panic(errors.New("unmodelled hash"))
	}
	return &Hasher{}
}

func HashAvailable(h crypto.Hash) bool { return h == crypto.BLAKE2b_256 }

// ---- JSON ----
//
// The text of JSON documents is not modelled: Marshal keeps the document and
// returns a token for it, Unmarshal of the token gives what the encoding/json
// package makes of the text: maps, slices, strings, float64, bool and nil.

var (
	documents      []any
	documentsMutex sync.Mutex
)

// JSONMarshal models json.Marshal.
func JSONMarshal(v any) ([]byte, error) {
	d := plain(v)
	documentsMutex.Lock()
	defer documentsMutex.Unlock()
	documents = append(documents, d)
	return []byte{'{', byte(len(documents)), '}'}, nil
}

// JSONUnmarshal models json.Unmarshal into a *map[string]any.
func JSONUnmarshal(data []byte, v any) error {
	documentsMutex.Lock()
	defer documentsMutex.Unlock()
	if len(data) != 3 || data[0] != '{' || int(data[1]) > len(documents) {
		panic(errors.New("unmodelled JSON text"))
	}
	m, ok := plain(documents[data[1]-1]).(map[string]any)
	if !ok {
		return errors.New("json: cannot unmarshal into map")
	}
	if _, ok := v.(*nodeclient.HTTPErrorResponseEnvelope); ok {
		return nil // only the text of error messages is made of it
	}
	p, ok := v.(*map[string]any)
	if !ok {
		panic(errors.New("unmodelled JSON destination"))
	}
	*p = m
	return nil
}

type ordered interface {
	Keys() []string
	Get(key string) (any, bool)
}

func plain(v any) any {
	switch x := v.(type) {
	case nil, bool, string, float64:
		return x
	case ordered:
		m := map[string]any{}
		for _, k := range x.Keys() {
			e, _ := x.Get(k)
			m[k] = plain(e)
		}
		return m
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = plain(e)
		}
		return m
	case []any:
		s := make([]any, len(x))
		for i, e := range x {
			s[i] = plain(e)
		}
		return s
	case uint64:
		if x > 1<<32-1 {
			panic(errors.New("unmodelled JSON number"))
		}
		return float64(uint32(x))
	case int64:
		if int64(int32(x)) != x {
			panic(errors.New("unmodelled JSON number"))
		}
		return float64(int32(x))
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return float64(uint32(r.Uint()))
	case reflect.Int8, reflect.Int16, reflect.Int32:
		return float64(int32(r.Int()))
	}
	panic(errors.New("unmodelled JSON value"))
}

// ---- HTTP ----

// NewRequest models http.NewRequestWithContext: the target is not parsed.
func NewRequest(_ context.Context, method, target string, body io.Reader) (*http.Request, error) {
	r := &http.Request{Method: method, URL: &url.URL{Opaque: target}, Header: http.Header{}}
	if body != nil {
		r.Body = io.NopCloser(body)
	}
	return r, nil
}

// ClientDo models (*http.Client).Do for answers other than redirections.
func ClientDo(c *http.Client, r *http.Request) (*http.Response, error) {
	return c.Transport.RoundTrip(r)
}

// WithTimeout models context.WithTimeout: the time does not pass.
func WithTimeout(ctx context.Context, _ time.Duration) (context.Context, context.CancelFunc) {
	return ctx, func() {}
}

// ---- wallets ----
//
// Key derivation is a hash of seed and path. A mnemonic of 24 words is a text
// of 55 bytes with the entropy in the words, and its seed a hash of it.

// DeriveKeyFromPath models slip10.DeriveKeyFromPath.
func DeriveKeyFromPath(seed []byte, curve slip10.Curve, path []uint32) (*slip10.ExtendedKey, error) {
	b := append([]byte(curve.Name()), byte(len(path)))
	for _, i := range path {
		b = append(b, byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
	}
	s := blake2b.Sum256(append(b, seed...))
	k, err := curve.NewPrivateKey(s[:])
	return &slip10.ExtendedKey{Key: k}, err
}

// EntropyToMnemonic models bip39.EntropyToMnemonic.
func EntropyToMnemonic(entropy []byte) (bip39.Mnemonic, error) {
	if len(entropy)%4 != 0 || len(entropy) < 16 || len(entropy) > 64 {
		return nil, bip39.ErrInvalidEntropySize
	}
	m := make(bip39.Mnemonic, len(entropy)*33/44)
	for i := range m {
		if n := len(entropy) - len(m); i < n {
			m[i] = string(entropy[2*i : 2*i+2])
		} else {
			m[i] = string(entropy[n+i : n+i+1])
		}
	}
	return m, nil
}

// ParseMnemonic models bip39.ParseMnemonic.
func ParseMnemonic(s string) bip39.Mnemonic {
	if len(s) != 55 {
		return strings.Fields(s)
	}
	m := make(bip39.Mnemonic, 24)
	for i := range m {
		if i < 8 {
			m[i] = s[3*i : 3*i+2]
		} else {
			m[i] = s[8+2*i : 8+2*i+1]
		}
	}
	return m
}

// MnemonicToEntropy models bip39.MnemonicToEntropy for sentences of 24 words.
func MnemonicToEntropy(m bip39.Mnemonic) ([]byte, error) {
	if len(m) != 24 {
		return nil, bip39.ErrInvalidMnemonic
	}
	var b []byte
	for i, w := range m {
		if (i < 8) != (len(w) == 2) || len(w) > 2 {
			return nil, bip39.ErrInvalidMnemonic
		}
		b = append(b, w...)
	}
	if b[0] == 0 { // the library drops leading zeroes before it computes the checksum
		return nil, bip39.ErrInvalidChecksum
	}
	return b, nil
}

// MnemonicToSeed models bip39.MnemonicToSeed.
func MnemonicToSeed(m bip39.Mnemonic, passphrase string) ([]byte, error) {
	b, err := MnemonicToEntropy(m)
	if err != nil {
		return nil, err
	}
	b = append(b, passphrase...)
	l, r := blake2b.Sum256(append(b, 1)), blake2b.Sum256(append(b, 2))
	return append(l[:], r[:]...), nil
}
