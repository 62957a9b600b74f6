package j8a

import (
	"bufio"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"io"
	"net/http"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// Driver for concurrent requests (spec Isolation): plays an interleaving of requests and upstream answers in virtual time
// and looks at the configuration all along.

func init() { vvDrivers["isolation"] = vvIsolation }

type vvIsoAns struct {
	Hdr     int64 // ms after the attempt began
	Body    int64 // ms after the header
	Status  int
	Headers [][2]string
	Data    []byte
	Rec     json.RawMessage
}

type vvIsoReq struct {
	Tag     int
	At      int64
	Method  string
	Target  string
	Headers [][2]string
	Body    []byte
	Rec     json.RawMessage
	Ans     []vvIsoAns
}

type vvIsoCase struct {
	Id    int
	M     int
	Span  int64 // ms
	Cfg   json.RawMessage
	Debug bool
	Reqs  []vvIsoReq
}

type vvIsoEv struct {
	E string      `json:"e"`
	R int         `json:"r"`
	V interface{} `json:"v"`
}

type vvIsoRec struct {
	Id   int       `json:"id"`
	Conf string    `json:"conf"`
	Ev   []vvIsoEv `json:"ev"`
}

var vvMark = regexp.MustCompile(`mk([0-9]+)x`)

func vvMarks(texts ...string) []int {
	seen := map[int]bool{}
	r := []int{}
	for _, t := range texts {
		for _, m := range vvMark.FindAllStringSubmatch(t, -1) {
			n, _ := strconv.Atoi(m[1])
			if !seen[n] {
				seen[n] = true
				r = append(r, n)
			}
		}
	}
	return r
}

func vvDigest(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:8])
}

// the configuration as text, without what is derived from it
func vvConf() string {
	var m map[string]interface{}
	b, _ := json.Marshal(map[string]interface{}{"policies": Runner.Policies, "routes": Runner.Routes, "resources": Runner.Resources, "connection": Runner.Connection})
	json.Unmarshal(b, &m)
	if rs, ok := m["routes"].([]interface{}); ok {
		for _, r := range rs {
			if r, ok := r.(map[string]interface{}); ok {
				delete(r, "PathRegex")
			}
		}
	}
	b, _ = json.Marshal(m)
	return string(b)
}

type vvIsoRun struct {
	mu   sync.Mutex
	rec  *vvIsoRec
	c    *vvIsoCase
	n    map[int]int
	over chan struct{}
	shut bool
}

func (r *vvIsoRun) ev(e string, tag int, v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.shut {
		r.rec.Ev = append(r.rec.Ev, vvIsoEv{e, tag, v})
	}
}

func (r *vvIsoRun) wait(ctx context.Context, ms int64) bool {
	tm := time.NewTimer(time.Duration(ms) * time.Millisecond)
	defer tm.Stop()
	select {
	case <-tm.C:
		return true
	case <-ctx.Done():
		return false
	case <-r.over:
		return false
	}
}

type vvIsoBody struct {
	r    *vvIsoRun
	ctx  context.Context
	a    vvIsoAns
	tag  int
	pos  int
	done bool
}

func (b *vvIsoBody) Close() error { return nil }
func (b *vvIsoBody) Read(p []byte) (int, error) {
	if half := len(b.a.Data) / 2; b.pos < half {
		k := copy(p, b.a.Data[b.pos:half])
		b.pos += k
		return k, nil
	}
	if !b.done {
		if !b.r.wait(b.ctx, b.a.Body) {
			return 0, context.Canceled
		}
		b.done = true
		b.r.ev("ans", b.tag, b.a.Rec)
	}
	if b.pos < len(b.a.Data) {
		k := copy(p, b.a.Data[b.pos:])
		b.pos += k
		return k, nil
	}
	return 0, io.EOF
}

func (r *vvIsoRun) do(req *http.Request) (*http.Response, error) {
	body := vvAll(req.Body)
	hs := vvCanonHeaders(req.Header)
	tag := -1
	if t := req.Header["X-Vtag"]; len(t) == 1 {
		tag, _ = strconv.Atoi(t[0])
	}
	r.ev("up", tag, map[string]interface{}{"path": req.Method + " " + req.URL.RequestURI(), "id": strings.Join(req.Header["X-Request-Id"], ","),
		"token": strings.Join(req.Header["Authorization"], ","), "sum": vvDigest(body), "marks": vvMarks(req.URL.String(), hs, string(body))})
	r.mu.Lock()
	k := r.n[tag]
	r.n[tag] = k + 1
	var a vvIsoAns
	found := false
	for _, q := range r.c.Reqs {
		if q.Tag == tag && k < len(q.Ans) {
			a, found = q.Ans[k], true
		}
	}
	r.mu.Unlock()
	ctx := req.Context()
	if !found || !r.wait(ctx, a.Hdr) {
		return nil, context.Canceled
	}
	h := http.Header{}
	for _, kv := range a.Headers {
		h.Add(kv[0], kv[1])
	}
	return &http.Response{StatusCode: a.Status, Header: h, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		ContentLength: -1, Request: req, Body: &vvIsoBody{r: r, ctx: ctx, a: a, tag: tag}}, nil
}

func vvIsoRuntime(m int) *Runtime {
	return &Runtime{
		Start: time.Now(),
		Config: Config{
			Connection: Connection{
				Upstream: Upstream{ReadTimeoutSeconds: 100, SocketTimeoutSeconds: 3, IdleTimeoutSeconds: 120, MaxAttempts: m, PoolSize: 2},
				Downstream: Downstream{IdleTimeoutSeconds: 120, ReadTimeoutSeconds: 120, RoundTripTimeoutSeconds: 500,
					Mode: "HTTP", Port: 8080, MaxBodyBytes: 1000},
			},
			Policies: map[string]Policy{"ab": {{Label: "blue", Weight: 0.3}, {Label: "green", Weight: 0.7}},
				"three": {{Label: "green", Weight: 0.5}, {Label: "blue", Weight: 0.2}, {Label: "red", Weight: 0.3}}},
			Resources: map[string][]ResourceMapping{
				"up": {{Name: "up", URL: URL{"http", "up.example", 9000}}, {Name: "up", URL: URL{"http", "spare.example", 9001}}},
				"col": {{Name: "col", Labels: []string{"green"}, URL: URL{"http", "green.example", 9002}},
					{Name: "col", Labels: []string{"blue", "red"}, URL: URL{"https", "blue.example", 9003}}},
			},
			Routes: Routes{{Path: "/unmapped", Resource: "nothing"}, {Path: "/three", Resource: "col", Policy: "three"},
				{Path: "/root", Resource: "up", Transform: "/"}, {Path: "/pol", Resource: "col", Policy: "ab"},
				{Path: "/tr", Resource: "up", Transform: "/x/y"}, {Path: "/p", Resource: "up"}},
		},
	}
}

func vvIsolation(t *testing.T) {
	vvEachCase(t, func(raw json.RawMessage) interface{} {
		var c vvIsoCase
		if err := json.Unmarshal(raw, &c); err != nil {
			t.Fatal(err)
		}
		rec := &vvIsoRec{Id: c.Id, Ev: []vvIsoEv{}}
		synctest.Test(t, func(t *testing.T) {
			r := &vvIsoRun{rec: rec, c: &c, n: map[int]int{}, over: make(chan struct{})}
			Runner = vvIsoRuntime(c.M)
			rec.Conf = vvConf()
			httpClient = &vvStub{r.do}
			srv := vvServe(http.HandlerFunc(proxyHandler))
			var wg sync.WaitGroup
			for i := range c.Reqs {
				q := &c.Reqs[i]
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(q.At) * time.Millisecond)
					cl := srv.Dial("127.0.0.1:4711")
					defer cl.Close()
					go func() { <-r.over; cl.Close() }()
					r.ev("come", q.Tag, q.Rec)
					go cl.Write(vvRawRequest(vvGwReq{Method: q.Method, Target: q.Target, Headers: q.Headers, Body: q.Body}))
					resp := vvReadResponse(bufio.NewReader(cl), q.Method)
					if resp.Err != "" || resp.BodyErr != "" {
						r.ev("bad", q.Tag, resp.Err+resp.BodyErr)
						return
					}
					plain := resp.Body
					if resp.Header.Get("Content-Encoding") == "gzip" && len(plain) > 0 {
						if plain = vvGunzip(plain); plain == nil {
							r.ev("bad", q.Tag, "not gzip")
							return
						}
					}
					mark := 0
					if m := resp.Header["X-Up-Mark"]; len(m) == 1 {
						mark, _ = strconv.Atoi(m[0])
					} else if len(m) > 1 {
						mark = -1
					}
					r.ev("resp", q.Tag, map[string]interface{}{"status": resp.Status, "id": strings.Join(resp.Header["X-Request-Id"], ","),
						"sum": vvDigest(plain), "mark": mark, "marks": vvMarks(vvCanonHeaders(resp.Header), string(plain))})
					r.ev("conf", 0, vvConf())
				}()
			}
			time.Sleep(time.Duration(c.Span)*time.Millisecond + 10*time.Second)
			r.mu.Lock()
			for _, q := range c.Reqs {
				got := false
				for _, e := range rec.Ev {
					got = got || e.R == q.Tag && (e.E == "resp" || e.E == "bad")
				}
				if !got {
					rec.Ev = append(rec.Ev, vvIsoEv{"silent", q.Tag, 0})
				}
			}
			rec.Ev = append(rec.Ev, vvIsoEv{"conf", 0, vvConf()})
			r.shut = true
			r.mu.Unlock()
			close(r.over)
			srv.Stop()
			wg.Wait()
			time.Sleep(1000 * time.Second)
		})
		return rec
	})
}
