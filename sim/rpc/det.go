package rpc

import (
	_ "unsafe"

	_ "google.golang.org/protobuf/encoding/protojson"
)

// The JSON of messages has white space chosen by a hash of the program: keep it out.

//go:linkname randSeed google.golang.org/protobuf/internal/detrand.randSeed
var randSeed uint64

func init() { randSeed = 0 }
