package j8a

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// Driver for the lifecycle of proxied requests (spec Gateway): replays upstream scripts in virtual time.

func init() { vvDrivers["gateway"] = vvGateway }

type vvUp struct {
	Hdr     int64  // ms until the response header is there, -1: never
	Kind    string // status, err
	Err     string // what error
	Known   bool   // the length of the body is announced
	Joint   bool   // the end of the body comes along with its last bytes
	Status  int
	Headers [][2]string
	Body    []byte
	Split   int   // bytes of the body that are there together with the header
	BodyAt  int64 // ms after the header until the rest of the body is there, -1: never
	Break   bool  // the body then ends with an error
	Lag     int64 // ms until a cancelled call returns
	LateOk  bool  // a cancelled call then succeeds regardless
}

type vvGwReq struct {
	Method  string
	Target  string
	Headers [][2]string
	Body    []byte
	Chunked bool
	Ups     []vvUp
}

type vvGwCase struct {
	Id  int
	Cfg struct{ M, R, T int }
	Req vvGwReq
}

type vvEv struct {
	E    string `json:"e"`
	N    int    `json:"n"`
	T    int64  `json:"t"`
	S    int    `json:"s"`
	Same bool   `json:"same"`
	Src  int    `json:"src"`
}

type vvGwRec struct {
	Id     int     `json:"id"`
	Ev     []vvEv  `json:"ev"`
	Cancel []int64 `json:"cancel"`
	Note   string  `json:"note"`
}

type vvGwRun struct {
	mu     sync.Mutex
	start  time.Time
	rec    *vvGwRec
	c      *vvGwCase
	over   chan struct{}
	first  string
	closed bool
}

func (r *vvGwRun) ev(e vvEv) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.closed {
		return
	}
	e.T = vvMs(r.start)
	r.rec.Ev = append(r.rec.Ev, e)
}

// wait until ms after from. false if ctx or the case ended before.
func (r *vvGwRun) sleep(ctx context.Context, ms int64) bool {
	if ctx.Err() != nil {
		return false
	}
	if ms < 0 {
		select {
		case <-ctx.Done():
		case <-r.over:
		}
		return false
	}
	if ms == 0 {
		return true
	}
	tm := time.NewTimer(time.Duration(ms) * time.Millisecond)
	defer tm.Stop()
	select {
	case <-tm.C:
		return true
	case <-ctx.Done():
		return false
	case <-r.over:
		return false
	}
}

func vvCanonHeaders(h http.Header) string {
	var keys []string
	for k := range h {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&sb, "%s=%q;", k, h[k])
	}
	return sb.String()
}

type vvBody struct {
	r    *vvGwRun
	ctx  context.Context
	u    vvUp
	n    int
	pos  int
	done error
}

func (b *vvBody) Close() error { return nil }

func (b *vvBody) Read(p []byte) (int, error) {
	if b.pos < b.u.Split {
		k := copy(p, b.u.Body[b.pos:b.u.Split])
		b.pos += k
		return k, nil
	}
	if b.done == nil {
		if b.r.sleep(b.ctx, b.u.BodyAt) {
			if b.u.Break {
				b.r.ev(vvEv{E: "break", N: b.n})
				if b.done = vvError(b.u.Err, io.ErrUnexpectedEOF); b.done == io.EOF {
					b.done = io.ErrUnexpectedEOF
				}
			} else {
				b.r.ev(vvEv{E: "eof", N: b.n})
				b.done = io.EOF
			}
		} else {
			b.r.lag(b.u)
			if b.u.LateOk {
				b.done = io.EOF
			} else {
				b.done = context.Canceled
			}
		}
	}
	if b.done == io.EOF && b.pos < len(b.u.Body) {
		k := copy(p, b.u.Body[b.pos:])
		b.pos += k
		if b.u.Joint && b.pos == len(b.u.Body) {
			return k, io.EOF
		}
		return k, nil
	}
	return 0, b.done
}

// errors the transport may come up with
func vvError(kind string, other error) error {
	switch kind {
	case "eof":
		return io.EOF
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "reset":
		return &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	case "refused":
		return &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	case "timeout":
		return &net.OpError{Op: "dial", Net: "tcp", Err: os.ErrDeadlineExceeded}
	case "dns":
		return &net.OpError{Op: "dial", Net: "tcp", Err: &net.DNSError{Err: "no such host", Name: "up.example", IsNotFound: true}}
	case "tls":
		return errors.New("tls: failed to verify certificate: x509: certificate signed by unknown authority")
	case "deadline":
		return context.DeadlineExceeded
	case "canceled":
		return context.Canceled
	case "malformed":
		return errors.New("net/http: HTTP/1.x transport connection broken: malformed HTTP response \"x\"")
	}
	return other
}

func (r *vvGwRun) lag(u vvUp) {
	if u.Lag > 0 {
		time.Sleep(time.Duration(u.Lag) * time.Millisecond)
	}
}

func (r *vvGwRun) do(req *http.Request) (*http.Response, error) {
	body := vvAll(req.Body)
	dig := req.Method + " " + req.URL.String() + " " + vvCanonHeaders(req.Header) + " " + string(body)
	r.mu.Lock()
	if len(r.rec.Cancel) == 0 {
		r.first = dig
	}
	same := dig == r.first && req.Method == r.c.Req.Method &&
		req.URL.String() == "http://up.example:9000"+r.c.Req.Target && bytes.Equal(body, r.c.Req.Body)
	want := map[string][]string{}
	for _, h := range r.c.Req.Headers {
		k := http.CanonicalHeaderKey(h[0])
		want[k] = append(want[k], h[1])
	}
	for k, v := range want {
		if k != "Host" && fmt.Sprint(req.Header[k]) != fmt.Sprint(v) {
			same = false
		}
	}
	r.rec.Cancel = append(r.rec.Cancel, -1)
	n := len(r.rec.Cancel)
	r.mu.Unlock()
	r.ev(vvEv{E: "up", N: n, Same: same})

	ctx := req.Context()
	go func() {
		select {
		case <-ctx.Done():
			r.mu.Lock()
			if !r.closed {
				r.rec.Cancel[n-1] = vvMs(r.start)
			}
			r.mu.Unlock()
		case <-r.over:
		}
	}()

	u := vvUp{Hdr: -1, BodyAt: -1}
	if n <= len(r.c.Req.Ups) {
		u = r.c.Req.Ups[n-1]
	}
	if !r.sleep(ctx, u.Hdr) {
		r.lag(u)
		if !u.LateOk || u.Kind == "err" {
			return nil, context.Canceled
		}
		u.BodyAt = -1
	} else {
		if u.Kind == "err" {
			r.ev(vvEv{E: "err", N: n})
			return nil, vvError(u.Err, errors.New("dial tcp: connection refused"))
		}
		r.ev(vvEv{E: "hdr", N: n, S: u.Status})
	}
	h := http.Header{}
	for _, kv := range u.Headers {
		h.Add(kv[0], kv[1])
	}
	length := int64(-1)
	if u.Known {
		length = int64(len(u.Body))
		h.Set("Content-Length", fmt.Sprint(length))
	}
	return &http.Response{StatusCode: u.Status, Header: h, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		ContentLength: length, Request: req, Body: &vvBody{r: r, ctx: ctx, u: u, n: n}}, nil
}

func vvGwRuntime(m, r, tt int) *Runtime {
	return &Runtime{
		Start: time.Now(),
		Config: Config{
			Connection: Connection{
				Upstream: Upstream{ReadTimeoutSeconds: r, SocketTimeoutSeconds: 3, IdleTimeoutSeconds: 120, MaxAttempts: m, PoolSize: 2},
				Downstream: Downstream{IdleTimeoutSeconds: 120, ReadTimeoutSeconds: 120, RoundTripTimeoutSeconds: tt,
					Mode: "HTTP", Port: 8080, MaxBodyBytes: 1 << 20},
			},
			Resources: map[string][]ResourceMapping{"up": {{Name: "up", URL: URL{"http", "up.example", 9000}}}},
			Routes:    Routes{{Path: "/", Resource: "up"}},
		},
	}
}

func vvRawRequest(q vvGwReq) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: proxy.example\r\n", q.Method, q.Target)
	for _, h := range q.Headers {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	if q.Chunked {
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for i := 0; i < len(q.Body); i += 7 {
			j := i + 7
			if j > len(q.Body) {
				j = len(q.Body)
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", j-i, q.Body[i:j])
		}
		b.WriteString("0\r\n\r\n")
	} else {
		if len(q.Body) > 0 {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", len(q.Body))
		}
		b.WriteString("\r\n")
		b.Write(q.Body)
	}
	return b.Bytes()
}

// which attempt's content does a response carry? 0: the proxy's own JSON, -1: neither
func (r *vvGwRun) source(q vvGwReq, resp vvResp) int {
	if resp.BodyErr != "" {
		return -1
	}
	body := resp.Body
	if resp.Header.Get("Content-Encoding") == "gzip" && len(body) > 0 {
		body = vvGunzip(body)
		if body == nil {
			return -1
		}
	}
	tags := resp.Header["X-Up-Attempt"]
	if len(tags) == 0 {
		if q.Method == "HEAD" {
			return 0
		}
		if code, _, ok := vvIsOwnJSON(body); ok && code == resp.Status {
			return 0
		}
		return -1
	}
	if len(tags) != 1 {
		return -1
	}
	n := 0
	fmt.Sscanf(tags[0], "%d", &n)
	if n < 1 || n > len(q.Ups) {
		return -1
	}
	u := q.Ups[n-1]
	plain := u.Body
	for _, h := range u.Headers {
		if h[0] == "Content-Encoding" && h[1] == "gzip" {
			plain = vvGunzip(u.Body)
		}
	}
	if q.Method == "HEAD" || u.Status == 204 || u.Status == 304 {
		plain = nil
	}
	if !bytes.Equal(plain, body) {
		return -1
	}
	for _, h := range u.Headers {
		if !strings.HasPrefix(h[0], "X-") {
			continue
		}
		cnt := 0
		for _, h2 := range u.Headers {
			if strings.EqualFold(h2[0], h[0]) {
				cnt++
			}
		}
		if len(resp.Header[http.CanonicalHeaderKey(h[0])]) != cnt {
			return -1
		}
	}
	return n
}

func vvGateway(t *testing.T) {
	vvEachCase(t, func(raw json.RawMessage) interface{} {
		var c vvGwCase
		if err := json.Unmarshal(raw, &c); err != nil {
			t.Fatal(err)
		}
		rec := &vvGwRec{Id: c.Id, Ev: []vvEv{}, Cancel: []int64{}}
		synctest.Test(t, func(t *testing.T) {
			r := &vvGwRun{start: time.Now(), rec: rec, c: &c, over: make(chan struct{})}
			Runner = vvGwRuntime(c.Cfg.M, c.Cfg.R, c.Cfg.T)
			httpClient = &vvStub{r.do}
			srv := vvServe(http.HandlerFunc(proxyHandler))
			cl := srv.Dial("127.0.0.1:4711")
			answered := make(chan struct{})
			go func() { cl.Write(vvRawRequest(c.Req)) }()
			go func() {
				defer close(answered)
				resp := vvReadResponse(bufio.NewReader(cl), c.Req.Method)
				if resp.Err != "" {
					r.mu.Lock()
					if !r.closed {
						r.rec.Note = resp.Err
					}
					r.mu.Unlock()
					r.ev(vvEv{E: "drop"})
				} else {
					r.ev(vvEv{E: "resp", S: resp.Status, Src: r.source(c.Req, resp)})
				}
			}()
			// long after every deadline
			time.Sleep(time.Duration(c.Cfg.T+c.Cfg.M*c.Cfg.R+120) * time.Second)
			r.mu.Lock()
			r.closed = true
			r.mu.Unlock()
			close(r.over)
			cl.Close()
			srv.Stop()
			<-answered
			time.Sleep(1000 * time.Second)
		})
		return rec
	})
}
