// Package metadata has gRPC metadata.
package metadata

import (
	"context"
	"fmt"
	"strings"
)

// MD maps lower-case keys to values.
type MD map[string][]string

func New(m map[string]string) MD {
	md := MD{}
	for k, v := range m {
		k = strings.ToLower(k)
		md[k] = append(md[k], v)
	}
	return md
}

func Pairs(kv ...string) MD {
	if len(kv)%2 == 1 {
		panic(fmt.Sprintf("metadata: Pairs got the odd number of input pairs for metadata: %d", len(kv)))
	}
	md := MD{}
	for i := 0; i < len(kv); i += 2 {
		k := strings.ToLower(kv[i])
		md[k] = append(md[k], kv[i+1])
	}
	return md
}

func (md MD) Len() int { return len(md) }
func (md MD) Copy() MD { return Join(md) }
func (md MD) Get(k string) []string {
	return md[strings.ToLower(k)]
}
func (md MD) Set(k string, vals ...string) {
	if len(vals) > 0 {
		md[strings.ToLower(k)] = vals
	}
}
func (md MD) Append(k string, vals ...string) {
	if len(vals) > 0 {
		k = strings.ToLower(k)
		md[k] = append(md[k], vals...)
	}
}
func (md MD) Delete(k string) { delete(md, strings.ToLower(k)) }

func Join(mds ...MD) MD {
	out := MD{}
	for _, md := range mds {
		for k, v := range md {
			out[k] = append(out[k], v...)
		}
	}
	return out
}

type inKey struct{}
type outKey struct{}

func NewIncomingContext(ctx context.Context, md MD) context.Context {
	return context.WithValue(ctx, inKey{}, md)
}
func NewOutgoingContext(ctx context.Context, md MD) context.Context {
	return context.WithValue(ctx, outKey{}, md)
}
func AppendToOutgoingContext(ctx context.Context, kv ...string) context.Context {
	md, _ := FromOutgoingContext(ctx)
	return NewOutgoingContext(ctx, Join(md, Pairs(kv...)))
}
func FromIncomingContext(ctx context.Context) (MD, bool) {
	md, ok := ctx.Value(inKey{}).(MD)
	if !ok {
		return nil, false
	}
	return lower(md), true
}
func FromOutgoingContext(ctx context.Context) (MD, bool) {
	md, ok := ctx.Value(outKey{}).(MD)
	if !ok {
		return nil, false
	}
	return lower(md), true
}

func lower(md MD) MD {
	out := MD{}
	for k, v := range md {
		out[strings.ToLower(k)] = append([]string(nil), v...)
	}
	return out
}
