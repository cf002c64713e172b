package rpc

import "google.golang.org/protobuf/proto"

// clone copies a message; proto.Clone loses negative zeros.
func clone(m proto.Message) proto.Message {
	b, err := proto.MarshalOptions{AllowPartial: true}.Marshal(m)
	if err != nil {
		return proto.Clone(m)
	}
	n := m.ProtoReflect().New().Interface()
	if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, n); err != nil {
		return proto.Clone(m)
	}
	return n
}
