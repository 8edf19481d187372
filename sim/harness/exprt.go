package main

import (
	"context"
	"errors"
	"io"
	"math"
	"net/http"
	"net/url"
	"runtime"
	"time"

	"github.com/kpango/glg"

	"github.com/yahoojapan/athenz-authorizer/v5/client"
)

// rtRun drives client.ExponentialRoundTripper alone, over a scripted transport.
type rtRun struct {
	calls []*rtCall
}

type rtCall struct {
	spec      *RTCall
	idx       int
	start     int64
	end       int64
	done      bool
	attempts  []*rtAttempt
	resp      *http.Response
	err       error
	body      string
	bodyErr   error
	cancelled bool
}

type rtAttempt struct {
	t0, t1 int64
	ans    RTAnswer
	resp   *http.Response
	body   *rtBody
	err    error
}

type rtBody struct {
	data    []byte
	off     int
	bad     bool
	closed  bool
	touched bool
}

func (b *rtBody) Read(p []byte) (int, error) {
	b.touched = true
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.off >= len(b.data) {
		if b.bad {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := copy(p, b.data[b.off:])
	b.off += n
	return n, nil
}

func (b *rtBody) Close() error { b.closed = true; return nil }

type rtKey struct{}

type rtInner struct{ h *run }

func (t rtInner) RoundTrip(req *http.Request) (*http.Response, error) {
	c := req.Context().Value(rtKey{}).(*rtCall)
	a := &rtAttempt{t0: now()}
	i := len(c.attempts)
	c.attempts = append(c.attempts, a)
	if i < len(c.spec.Answers) {
		a.ans = c.spec.Answers[i]
	} else {
		a.ans = RTAnswer{Status: 200, Body: "past the script"}
	}
	t.h.note("attempt", "call %d attempt %d %+v", c.idx, i, a.ans)
	if err := sleepCtx(req.Context(), a.ans.Delay); err != nil {
		a.t1, a.err = now(), err
		return nil, err
	}
	a.t1 = now()
	switch a.ans.Err {
	case "temp":
		a.err = &simErr{"temporary", true}
		return nil, a.err
	case "perm":
		a.err = &simErr{"permanent", false}
		return nil, a.err
	case "plain":
		a.err = errors.New("plain error")
		return nil, a.err
	}
	a.body = &rtBody{data: []byte(a.ans.Body), bad: a.ans.ReadErr}
	a.resp = &http.Response{StatusCode: a.ans.Status, Header: http.Header{"X-N": {a.ans.Body}}, Body: a.body, Request: req}
	return a.resp, nil
}

func retriableStatus(s int) bool {
	return s == 429 || s == 500 || s == 503 || s == 504
}

func executeRT(h *run, sc runtime.SimConf) {
	glg.Get().SetMode(glg.NONE)
	rr := &rtRun{}
	h.rtrun = rr
	pl := h.p.RT
	h.res = runtime.SimRun(&sc, func() {
		rt, err := client.NewExponentialRoundTripper(rtInner{h}, pl.Factor, pl.Count, pl.MaxTime)
		if err != nil {
			panic(err)
		}
		for i := range pl.Calls {
			c := &rtCall{spec: &pl.Calls[i], idx: i}
			rr.calls = append(rr.calls, c)
			h.goh(func() {
				time.Sleep(time.Duration(c.spec.At))
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), rtKey{}, c))
				defer cancel()
				if c.spec.Cancel > 0 {
					t := time.AfterFunc(time.Duration(c.spec.Cancel), func() { c.cancelled = !c.done; cancel() })
					defer t.Stop()
				}
				u, _ := url.Parse("https://server.sim/x")
				req := (&http.Request{Method: "GET", URL: u, Header: http.Header{}}).WithContext(ctx)
				c.start = now()
				c.resp, c.err = rt.RoundTrip(req)
				c.end = now()
				c.done = true
				if c.resp != nil && c.err == nil && c.resp.Body != nil {
					b, e := io.ReadAll(c.resp.Body)
					c.body, c.bodyErr = string(b), e
					c.resp.Body.Close()
				}
				h.note("call", "%d -> %v %v", c.idx, c.resp != nil, c.err)
			})
		}
		for h.hg > 0 && now() < int64(2*time.Hour) {
			time.Sleep(time.Second)
		}
		runtime.SimWait()
		h.endAt = now()
		h.left = runtime.SimLive() - h.hg
	})
	h.judgeRT()
}

func (h *run) judgeRT() {
	pl := h.p.RT
	S := h.res.StallTime
	f := float64(time.Second) / math.Pow(pl.Factor, 2)
	wait := func(n int) int64 { return int64(float64(2*n+1) * f) }
	tag := []string{"C18"}
	for _, c := range h.rtrun.calls {
		if !c.done {
			h.violateAt(h.endAt, tag, "round trip never returned: call %d", c.idx)
			continue
		}
		h.stats["op.roundtrip"]++
		n := len(c.attempts)
		if n > pl.Count || (n == 0 && pl.Count > 0) {
			h.violateAt(c.end, tag, "number of attempts: call %d made %d, configured %d", c.idx, n, pl.Count)
			continue
		}
		if pl.Count <= 0 {
			continue
		}
		limit := c.start + int64(pl.MaxTime)
		for i, a := range c.attempts {
			last := i == n-1
			retriable := a.ans.Err == "temp" || (a.ans.Err == "" && retriableStatus(a.ans.Status))
			if a.err != nil && (a.err == context.Canceled || a.err == context.DeadlineExceeded) {
				retriable = false // the caller gave up
			}
			w := wait(i)
			if !last {
				if !retriable {
					h.violateAt(a.t1, tag, "repeated after a final answer: call %d attempt %d %+v", c.idx, i, a.ans)
					break
				}
				gap := c.attempts[i+1].t0 - a.t1
				if gap < w-1 {
					h.violateAt(a.t1, tag, "repeated too early: call %d attempt %d after %s instead of %s (%+v)", c.idx, i+1, sec(gap), sec(w), a.ans)
					break
				}
				if gap > w+S+eps {
					h.violateAt(a.t1, tag, "repeated too late: call %d attempt %d after %s instead of %s", c.idx, i+1, sec(gap), sec(w))
					break
				}
				if a.t1+w >= limit+S+eps {
					h.violateAt(a.t1, tag, "repeated beyond the time limit: call %d attempt %d", c.idx, i+1)
					break
				}
				if a.body != nil && !a.body.closed {
					h.violateAt(a.t1, []string{"C18", "C19"}, "discarded response not closed: call %d attempt %d status %d", c.idx, i, a.ans.Status)
				}
				continue
			}
			// the last attempt's outcome is the call's
			if retriable && n < pl.Count && a.t1+w+S+eps < limit && !c.cancelled {
				h.violateAt(a.t1, tag, "gave up early: call %d after attempt %d of %d, %s before the limit", c.idx, n, pl.Count, sec(limit-a.t1))
			}
			if a.err != nil {
				if c.err == nil {
					h.violateAt(c.end, tag, "error swallowed: call %d %v", c.idx, a.err)
				} else if c.err != a.err && !errors.Is(c.err, a.err) {
					h.violateAt(c.end, tag, "error replaced: call %d %v by %v", c.idx, a.err, c.err)
				}
				continue
			}
			if c.resp == nil || c.err != nil {
				h.violateAt(c.end, tag, "response lost: call %d status %d err %v", c.idx, a.ans.Status, c.err)
				continue
			}
			if c.resp.StatusCode != a.ans.Status || c.resp.Header.Get("X-N") != a.ans.Body {
				h.violateAt(c.end, tag, "not the server's last response: call %d", c.idx)
			}
			if c.body != a.ans.Body || (c.bodyErr != nil) != a.ans.ReadErr {
				h.violateAt(c.end, tag, "response body not readable by the caller: call %d status %d got %q (%v), server sent %q", c.idx, a.ans.Status, c.body, c.bodyErr, a.ans.Body)
			}
		}
		if n > 1 {
			h.stats["rt.retried"]++
		}
		if retries := n; retries == pl.Count {
			h.stats["rt.exhausted"]++
		}
	}
	if h.left > 0 {
		h.violateAt(h.endAt, tag, "goroutines left behind: %d", h.left)
	}
}
