package main

import (
	"go/types"

	"golang.org/x/crypto/blake2b"
)

var tUint8 = types.Typ[types.Uint8]

func blake2bSum256(b []byte) [32]byte { return blake2b.Sum256(b) }

func (tb *TB) count() int { return int(tb.next) }
