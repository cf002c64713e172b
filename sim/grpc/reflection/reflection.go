// Package reflection describes services, which nobody asks for here.
package reflection

type GRPCServer interface{}

func Register(s GRPCServer) {}
