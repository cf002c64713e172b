package rpc

import (
	"encoding/json"

	"github.com/teamlint/baron/zz_sim/k"
	"github.com/teamlint/baron/zz_sim/nats"
	"github.com/teamlint/baron/zz_sim/net"
)

// Case is one simulated deployment: servers, clients, a network, a broker.
type Case struct {
	Prop    string       `json:"prop"`
	Def     *Def         `json:"def"`
	Other   *Def         `json:"other,omitempty"` // another service on the same broker
	Seed    uint64       `json:"seed"`
	Burst   int          `json:"burst,omitempty"`
	Preempt int          `json:"preempt,omitempty"`
	Fixed   bool         `json:"fixed,omitempty"`
	Sched   []k.Sw       `json:"sched,omitempty"`
	Servers int          `json:"servers"`
	Off     []string     `json:"off,omitempty"` // transports the servers are not configured for
	Debug   bool         `json:"debug,omitempty"`
	Odd     bool         `json:"odd,omitempty"` // NATS responses which are not numbers
	Cmd     *Cmd         `json:"cmd,omitempty"` // the server is started by its command
	Wraps   []Wrap       `json:"wraps,omitempty"`
	Clients []Client     `json:"clients"`
	Net     []net.Fault  `json:"net,omitempty"`
	NATS    []nats.Fault `json:"nats,omitempty"`
	Events  []Event      `json:"events,omitempty"`
}

// Client is a process which makes calls, at the same time, with one client.
type Client struct {
	Via    string   `json:"via"` // http, grpc, nats
	Server int      `json:"server,omitempty"`
	Start  int      `json:"start,omitempty"` // ms
	Early  bool     `json:"early,omitempty"` // does not wait for the server
	Keys   []string `json:"keys,omitempty"`
	Host   string   `json:"host,omitempty"` // the name of the server
	Join   bool     `json:"join,omitempty"` // in the process of the client before
	Calls  []Call   `json:"calls"`
}

// Call is one call.
type Call struct {
	Method  string            `json:"method"`
	Req     string            `json:"req"`
	At      int               `json:"at,omitempty"`      // ms
	Timeout int               `json:"timeout,omitempty"` // ms
	Ctx     map[string]string `json:"ctx,omitempty"`
	Resp    uint64            `json:"resp"` // what the response is made of
	Size    int               `json:"size,omitempty"`
	Slow    int               `json:"slow,omitempty"` // the handler takes up to so many ms
	Oneof   bool              `json:"oneof,omitempty"`
	Bad     bool              `json:"bad,omitempty"` // the request has a string which is not UTF-8
	Fail    string            `json:"fail,omitempty"`
	Code    int               `json:"code,omitempty"`
	Tamper  *Tamper           `json:"tamper,omitempty"`
	Raw     *Raw              `json:"raw,omitempty"`
}

// Tamper damages a body or message on its way.
type Tamper struct {
	What string `json:"what"` // req, resp, status
	Mode string `json:"mode"` // cut, or what the body is replaced by
	At   int    `json:"at,omitempty"`
}

// Event happens to a server.
type Event struct {
	Ms     int    `json:"ms"`
	Kind   string `json:"kind"` // kill, restart (kill and start again Len ms later), INT, TERM
	Len    int    `json:"len,omitempty"`
	Server int    `json:"server,omitempty"`
	Turn   int    `json:"turn,omitempty"` // not at a time, but in the midst of steps: after so many turns
}

// Wrap is one wrapping of the endpoints.
type Wrap struct {
	Name   string   `json:"name"`
	Label  bool     `json:"label,omitempty"`
	Except []string `json:"except,omitempty"`
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	n := &Case{}
	json.Unmarshal(b, n)
	return n
}

func (c *Case) off(t string) bool {
	for _, o := range c.Off {
		if o == t {
			return true
		}
	}
	return false
}
