//go:build go1.21

package nats

import "github.com/teamlint/baron/zz_sim/k"

// ChanSubscribe and ChanQueueSubscribe deliver to a channel.
func (c *Conn) ChanSubscribe(subj string, ch chan *Msg) (*Subscription, error) {
	return c.subscribe(subj, "", func(m *Msg) { k.Send(ch, m) })
}
func (c *Conn) ChanQueueSubscribe(subj, q string, ch chan *Msg) (*Subscription, error) {
	return c.subscribe(subj, q, func(m *Msg) { k.Send(ch, m) })
}
func (c *Conn) QueueSubscribeSyncWithChan(subj, q string, ch chan *Msg) (*Subscription, error) {
	return c.ChanQueueSubscribe(subj, q, ch)
}
