package rpc

import (
	"fmt"
	"net/http"
	"regexp"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/teamlint/baron/zz_sim/drive"
)

// stopTime is how long a server may take to end.
const stopTime = 5 * time.Second

// mayFail says whether something happened that a call may fail of.
func (x *run) mayFail(i int) bool {
	f, r := x.calls[i], x.res[i]
	if f.Timeout > 0 || f.Bad {
		return true
	}
	for _, c := range r.conns {
		if x.hurt[c] {
			return true
		}
	}
	for _, in := range r.inbox {
		if x.lost[in] {
			return true
		}
	}
	for _, e := range x.evs {
		if e.at <= r.end || !r.done {
			return true
		}
	}
	if f.via == "nats" {
		for _, p := range x.c.NATS {
			if p.Kind == "connect" || p.Kind == "cut" || p.Kind == "close" || p.Kind == "sub" {
				return true
			}
		}
	}
	return x.c.Clients[f.client].Early
}

var natsOneof = regexp.MustCompile(`^json: cannot unmarshal object into Go struct field [A-Za-z0-9_.]+ of type [a-z0-9_]+\.is[A-Za-z0-9]+_[A-Za-z0-9_]+$`)

// cause says whether a call over NATS failed because of what encoding/json
// cannot carry.
func (x *run) cause(i, first int) string {
	f, r := x.calls[i], x.res[i]
	if f.via != "nats" || r.err == "" {
		return ""
	}
	resp := x.response(first)
	switch text := r.err; {
	case natsOneof.MatchString(text) && (hasOneof(f.req.ProtoReflect()) || hasOneof(resp.ProtoReflect())):
		return "-oneof"
	case strings.HasPrefix(text, "json: unsupported value: ") && (strings.Contains(toText(resp), "Inf") || strings.Contains(toText(resp), "NaN")):
		return "-nonfinite"
	}
	return ""
}

func (x *run) describe(i int) string {
	f := x.calls[i]
	s := fmt.Sprintf("call %d: %s.%s over %s", i, x.s.Service.Service, f.Method, f.via)
	if f.Raw != nil {
		ru := f.m.rules[f.Raw.Rule%len(f.m.rules)]
		verb := ru.verb
		if f.Raw.Verb != "" {
			verb = f.Raw.Verb
		}
		s += fmt.Sprintf(" (%s %s body %q)", verb, ru.path, ru.body)
		if x.res[i].sent != "" {
			s += " as " + x.res[i].sent
		}
	}
	return s + fmt.Sprintf(" with %s", show(f.req))
}

func (x *run) judge() *drive.Bad {
	c := x.c
	prop := c.Prop
	faults := len(x.hurt) + len(x.lost) + x.dupd + len(x.evs)
	dup := x.dupd
	for _, f := range c.Net {
		if f.Kind == "dup" {
			dup++
		}
	}
	if dup > 0 {
		faults++
	}
	// crashes
	for i, sv := range x.srvs {
		if sv.p.Panic != "" && !sv.p.Killed {
			if sv.p.Hang && strings.Contains(sv.p.Panic, "asleep") {
				continue
			}
			return drive.Badf(prop, "server-crash", "server %d crashes: %s\n%s", i, sv.p.Panic, short(sv.p.Stack))
		}
	}
	for i, r := range x.res {
		if r.panic != "" {
			return drive.Badf(prop, "client-crash-"+x.calls[i].via, "%s: the client panics: %s\n%s", x.describe(i), r.panic, short(r.stack))
		}
	}
	for i, p := range x.cls {
		if p.Panic != "" && !x.hung {
			return drive.Badf(prop, "client-crash", "client %d crashes: %s\n%s", i, p.Panic, short(p.Stack))
		}
	}
	for i, r := range x.res {
		if x.hung && r.started && !r.done && !x.mayFail(i) {
			return drive.Badf(prop, "call-hangs-"+x.calls[i].via, "%s does not end", x.describe(i))
		}
	}
	if prop == "C25" {
		return x.judgeTour()
	}
	if prop == "C24" {
		if b := x.judgeCmd(); b != nil || c.Cmd.Bad {
			return b
		}
	}
	if prop == "C18" {
		if b := x.judgeServers(); b != nil {
			return b
		}
	}
	if len(x.stray) > 0 {
		return drive.Badf(prop, "other-service", "a call of %s reaches another service: %s", x.s.Service.Service, x.stray[0])
	}
	// what the servers were asked
	for _, iv := range x.inv {
		if iv.match >= 0 {
			continue
		}
		same, tampered := "", false
		for i, f := range x.calls {
			if f.Method == iv.method {
				same += "\n  " + x.describe(i)
				tampered = tampered || x.res[i].tampered
			}
		}
		if same == "" {
			return drive.Badf(prop, "wrong-method", "the handler of %s is called, which nobody called, with %s", iv.method, show(iv.req))
		}
		return drive.Badf(prop, "request-changed", "the handler of %s gets %s, which nobody sent:%s", iv.method, show(iv.req), same)
	}
	count := map[int]int{}
	for _, iv := range x.inv {
		count[iv.match]++
	}
	type group struct{ n, ok, bad int }
	groups := map[int]*group{}
	for i, f := range x.calls {
		r := x.res[i]
		first := x.match(f.Method, f.req)
		g := groups[first]
		if g == nil {
			g = &group{}
			groups[first] = g
		}
		g.n++
		fail := x.calls[first].Fail
		wrongReq := r.tampered && (f.Raw != nil || f.Tamper.What == "req")
		if !r.done {
			g.bad++
			continue
		}
		if r.failed {
			g.bad++
			if fail == "" && !r.tampered && !x.mayFail(i) {
				return drive.Badf(prop, "call-fails-"+f.via+x.cause(i, first), "%s fails although nothing is wrong: %s", x.describe(i), r.err)
			}
			if wrongReq {
				g.n--
				g.bad--
			}
			continue
		}
		g.ok++
		if r.tampered && f.Raw != nil {
			return drive.Badf(prop, "wrong-request-served", "%s succeeds with %s", x.describe(i), show(r.resp))
		}
		if r.tampered {
			return drive.Badf(prop, "undecodable-accepted-"+f.via, "%s succeeds with %s although its %s was damaged (%s)", x.describe(i), show(r.resp), f.Tamper.What, f.Tamper.Mode)
		}
		if fail != "" {
			return drive.Badf(prop, "error-lost-"+f.via, "%s succeeds with %s although the handler failed (%s)", x.describe(i), show(r.resp), fail)
		}
		if r.resp == nil {
			return drive.Badf(prop, "no-response-"+f.via, "%s succeeds without a response", x.describe(i))
		}
		if want := x.response(first); !proto.Equal(want, r.resp) {
			return drive.Badf(prop, "response-changed-"+f.via, "%s yields %s, the handler answered %s", x.describe(i), show(r.resp), show(want))
		}
	}
	for i := range x.calls {
		g := groups[i]
		if g == nil {
			continue
		}
		n := count[i]
		if n > g.n+dup {
			return drive.Badf(prop, "too-many-invocations", "%s: the handler is called %d times for %d calls", x.describe(i), n, g.n)
		}
		if n < g.ok {
			return drive.Badf(prop, "success-without-handler", "%s: the handler is called %d times, %d calls succeed", x.describe(i), n, g.ok)
		}
	}
	// whoever has a message may keep it
	for _, iv := range x.inv {
		if iv.in != nil && !proto.Equal(iv.in, iv.req) {
			return drive.Badf(prop, "request-changed-later", "the request of the handler of %s was %s and has become %s", iv.method, show(iv.req), show(iv.in))
		}
		if iv.out != nil && !proto.Equal(iv.out, iv.ans) {
			return drive.Badf(prop, "answer-changed-later", "the answer of the handler of %s was %s and has become %s", iv.method, show(iv.ans), show(iv.out))
		}
	}
	for i, r := range x.res {
		if r.req != nil && !proto.Equal(r.req, x.calls[i].req) {
			return drive.Badf(prop, "caller-changed", "%s: the message of the caller has become %s", x.describe(i), show(r.req))
		}
		if r.msg != nil && !proto.Equal(r.msg, r.resp) {
			return drive.Badf(prop, "response-changed-later", "%s: the response was %s and has become %s", x.describe(i), show(r.resp), show(r.msg))
		}
	}
	switch prop {
	case "C19":
		for _, iv := range x.inv {
			want := x.trace(iv.method)
			if fmt.Sprint(want) != fmt.Sprint(iv.trace) {
				return drive.Badf(prop, "wrapping", "the handler of %s is wrapped by %v, expected %v (outermost first)", iv.method, iv.trace, want)
			}
		}
	case "C23":
		for _, iv := range x.inv {
			f := x.calls[iv.match]
			if f.via == "nats" {
				continue
			}
			cl := c.Clients[f.client]
			all := map[string]bool{}
			for _, o := range c.Clients {
				for _, key := range o.Keys {
					all[key] = true
				}
			}
			for key := range all {
				want, sent := "", false
				for _, mine := range cl.Keys {
					if strings.EqualFold(mine, key) {
						want, sent = f.Ctx[key], true
						if _, ok := f.Ctx[key]; !ok {
							sent = false
						}
					}
				}
				for _, form := range []string{http.CanonicalHeaderKey(key), strings.ToLower(key)} {
					got, ok := iv.ctx[form]
					if !sent && ok {
						return drive.Badf(prop, "metadata-leak-"+f.via, "%s: the handler sees %s=%q, which this call did not carry", x.describe(iv.match), form, got)
					}
					if sent && (!ok || got != want) {
						return drive.Badf(prop, "metadata-lost-"+f.via, "%s: the handler sees %s=%q (there: %v), the call carried %q", x.describe(iv.match), form, got, ok, want)
					}
				}
			}
		}
	}
	return nil
}

// trace is how a method is wrapped, outermost first.
func (x *run) trace(name string) []string {
	var rv []string
	for i := len(x.c.Wraps) - 1; i >= 0; i-- {
		w := x.c.Wraps[i]
		ex := false
		for _, e := range w.Except {
			ex = ex || e == name
		}
		if ex {
			continue
		}
		s := w.Name
		if w.Label {
			s += "=" + name
		}
		rv = append(rv, s)
	}
	return rv
}

func (x *run) judgeServers() *drive.Bad {
	for i, sv := range x.srvs {
		var first *happening
		texts := map[string]bool{}
		killed := false
		for j := range x.evs {
			e := &x.evs[j]
			if e.srv != i {
				continue
			}
			if first == nil {
				first = e
			}
			killed = killed || e.kill
			if !sv.ended || e.at <= sv.end {
				texts["exit "+e.text] = true
			}
		}
		log := strings.TrimSpace(sv.p.Stderr.String())
		switch {
		case sv.ended && (first == nil || sv.end < first.at):
			return drive.Badf("C18", "server-stops", "server %d ends although nothing happened; its log:\n%s", i, log)
		case killed:
		case first != nil && !sv.ended && x.caps-first.at > stopTime:
			return drive.Badf("C18", "server-runs-on", "server %d still runs %v after %s (%s); its log:\n%s", i, x.caps-first.at, first.what, first.text, log)
		case first != nil && sv.ended && sv.end-first.at > stopTime:
			return drive.Badf("C18", "server-stops-late", "server %d ends %v after %s (%s); its log:\n%s", i, sv.end-first.at, first.what, first.text, log)
		case first != nil && sv.ended:
			ok := false
			for t := range texts {
				ok = ok || strings.Contains(log, t)
			}
			if !ok {
				return drive.Badf("C18", "cause-not-reported", "server %d ended because of %s (%s), which its log does not say:\n%s", i, first.what, first.text, log)
			}
		}
	}
	return nil
}

func short(s string) string {
	if len(s) > 1800 {
		s = s[:1800] + "..."
	}
	return s
}
