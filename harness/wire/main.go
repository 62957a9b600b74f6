// wire drives the real server binary over real connections. For every case it starts a server with the given
// configuration, plays raw client requests against it and raw upstream responses behind it, and records what
// arrived at the upstream, what the client received and what the server logged. It knows nothing about what is right.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha1"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Frag struct {
	B     []byte
	Delay int // ms before it is written
}

type UpAct struct {
	Raw  []Frag
	Then string // keep, close, reset, hang
}

type Req struct {
	Id        int
	Method    string
	Raw       []Frag
	HalfClose bool
	Abort     bool // close the connection right after sending, do not read
	Timeout   int  // ms
	At        int  // ms after the start, if that is still to come
	Script    []UpAct
}

type Conn struct {
	From     string // local address
	To       string // server address, 127.0.0.1 by default
	Tls      *TlsOpts
	Pipeline bool
	Idle     int // ms to wait for the server to close the connection at the end, 0: no wait
	Extra    int // ms to wait for bytes nobody asked for
	Gap      int // ms between requests
	Reqs     []Req
}

type TlsOpts struct {
	Min, Max uint16
	Suites   []uint16
	H2       bool // speak HTTP/2
}

type UpDef struct {
	CertPem, KeyPem string
	Mode            string // http, closed, blackhole, mute
	Say             []byte // response to requests without a script
	Host            string
}

type Case struct {
	Id       int
	Bin      string
	Yaml     string
	YamlVia  string // env (default), file, default, none
	Env      map[string]string
	Args     []string
	Files    map[string]string
	Ups      []UpDef
	Conns    []Conn
	Conc     int
	Logs     bool
	Boot     bool // only see whether it starts
	BootMs   int
	SettleMs int
	Times    bool // note when fragments were written
	KeepErr  bool // keep the output of the server in any case
}

type KV [2]string

type UpSeen struct {
	Req    int    `json:"req"`
	Up     int    `json:"up"`
	Conn   int    `json:"conn"`
	Method string `json:"method"`
	Target string `json:"target"`
	Hdrs   []KV   `json:"hdrs"`
	Len    int    `json:"len"`
	Sum    string `json:"sum"`
	Whole  bool   `json:"whole"`
	At     int64  `json:"at"`
	End    int64  `json:"end"` // when the answer was out, -1 if it was not
}

type Json struct {
	Ok       bool   `json:"ok"`
	Obj      bool   `json:"obj"`
	Code     int    `json:"code"`
	Msg      string `json:"msg"`
	J8a      string `json:"j8a"`
	ServerId string `json:"serverid"`
	Version  string `json:"version"`
	Keys     int    `json:"keys"`
}

type RespSeen struct {
	Status  int    `json:"status"`
	Proto   string `json:"proto"`
	Hdrs    []KV   `json:"hdrs"`
	Framing string `json:"framing"` // none, cl, chunked, eof
	Len     int    `json:"len"`
	Sum     string `json:"sum"`
	GzOk    bool   `json:"gzok"`
	GzLen   int    `json:"gzlen"`
	GzSum   string `json:"gzsum"`
	Json    Json   `json:"json"`
	Interim []int  `json:"interim"`
	Body    []byte `json:"body,omitempty"`
}

type ReqSeen struct {
	Id    int       `json:"id"`
	Conn  int       `json:"conn"`
	Resp  *RespSeen `json:"resp"`
	Err   string    `json:"err"`
	Ms    int64     `json:"ms"`
	Sent  int64     `json:"sent"`
	Local string    `json:"local"`
	Wrote []int64   `json:"wrote,omitempty"` // when each fragment was about to be written
}

type ConnSeen struct {
	Err    string `json:"err"`
	Extra  int    `json:"extra"`
	Closed int64  `json:"closed"` // ms after the last response until the server closed, -1 if it did not
	TlsVer uint16 `json:"tlsver"`
	Suite  uint16 `json:"suite"`
	Cert   string `json:"cert"`
	Begun  int64  `json:"begun"`
	Ended  int64  `json:"ended"`
}

type UpConn struct {
	Up     int    `json:"up"`
	Conn   int    `json:"conn"`
	Opened int64  `json:"opened"`
	Closed int64  `json:"closed"`
	Tls    string `json:"tls"`
}

type Rec struct {
	Id        int                      `json:"id"`
	Listening bool                     `json:"listening"`
	Alive     bool                     `json:"alive"`
	Exit      int                      `json:"exit"`
	Stderr    string                   `json:"stderr"`
	Reqs      []*ReqSeen               `json:"reqs"`
	Conns     []*ConnSeen              `json:"conns"`
	Ups       []UpSeen                 `json:"ups"`
	UpConns   []*UpConn                `json:"upconns"`
	Logs      []map[string]interface{} `json:"logs"`
	Port      int                      `json:"port"`
	UpPorts   []int                    `json:"upports"`
	Ended     int64                    `json:"ended"`
}

func sum(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:8])
}

func die(v ...interface{}) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(2)
}

// ------------------------------------------------------------- messages

type head struct {
	line string
	hdrs []KV
}

func readLine(r *bufio.Reader) (string, error) {
	s, err := r.ReadString('\n')
	if err != nil {
		return s, err
	}
	return strings.TrimRight(s, "\r\n"), nil
}

func readHead(r *bufio.Reader) (head, error) {
	var h head
	var err error
	h.hdrs = []KV{}
	if h.line, err = readLine(r); err != nil {
		return h, err
	}
	for {
		l, err := readLine(r)
		if err != nil {
			return h, err
		}
		if l == "" {
			return h, nil
		}
		i := strings.IndexByte(l, ':')
		if i < 1 {
			return h, fmt.Errorf("bad header line %q", l)
		}
		h.hdrs = append(h.hdrs, KV{strings.ToLower(l[:i]), strings.Trim(l[i+1:], " \t")})
	}
}

func get(h []KV, k string) (string, bool) {
	for _, kv := range h {
		if kv[0] == k {
			return kv[1], true
		}
	}
	return "", false
}

func readChunked(r *bufio.Reader) ([]byte, error) {
	var b bytes.Buffer
	for {
		l, err := readLine(r)
		if err != nil {
			return b.Bytes(), err
		}
		if i := strings.IndexByte(l, ';'); i >= 0 {
			l = l[:i]
		}
		n, err := strconv.ParseInt(strings.TrimSpace(l), 16, 32)
		if err != nil {
			return b.Bytes(), err
		}
		if n == 0 {
			for {
				l, err := readLine(r)
				if err != nil || l == "" {
					return b.Bytes(), err
				}
			}
		}
		if _, err = io.CopyN(&b, r, n); err != nil {
			return b.Bytes(), err
		}
		if l, err = readLine(r); err != nil || l != "" {
			return b.Bytes(), fmt.Errorf("bad chunk end %v", err)
		}
	}
}

func unexpected(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

func gunzip(b []byte) ([]byte, bool) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	o, err := io.ReadAll(r)
	return o, err == nil
}

func readResponse(r *bufio.Reader, method string, started func()) (*RespSeen, error) {
	resp := &RespSeen{Interim: []int{}, Hdrs: []KV{}}
	for {
		if _, err := r.Peek(1); err != nil {
			return nil, err
		}
		h, err := readHead(r)
		if err != nil {
			return nil, unexpected(err)
		}
		p := strings.SplitN(h.line, " ", 3)
		if len(p) < 2 || !strings.HasPrefix(p[0], "HTTP/1.") || len(p[1]) != 3 {
			return nil, fmt.Errorf("bad status line %q", h.line)
		}
		resp.Status, err = strconv.Atoi(p[1])
		if err != nil {
			return nil, err
		}
		resp.Proto = p[0]
		if resp.Status < 200 && resp.Status != 101 {
			resp.Interim = append(resp.Interim, resp.Status)
			continue
		}
		resp.Hdrs = h.hdrs
		break
	}
	var body []byte
	var err error
	te, isTe := get(resp.Hdrs, "transfer-encoding")
	cl, isCl := get(resp.Hdrs, "content-length")
	switch {
	case method == "HEAD" || resp.Status == 204 || resp.Status == 304 || resp.Status < 200:
		resp.Framing = "none"
	case isTe && strings.EqualFold(te, "chunked"):
		resp.Framing = "chunked"
		body, err = readChunked(r)
	case isCl:
		resp.Framing = "cl"
		n, e := strconv.Atoi(cl)
		if e != nil || n < 0 {
			return nil, fmt.Errorf("bad content-length %q", cl)
		}
		body = make([]byte, n)
		var k int
		k, err = io.ReadFull(r, body)
		body = body[:k]
	default:
		resp.Framing = "eof"
		body, err = io.ReadAll(r)
	}
	if err != nil {
		return nil, fmt.Errorf("body: %v", unexpected(err))
	}
	analyse(resp, body)
	return resp, nil
}

func analyse(resp *RespSeen, body []byte) {
	resp.Len = len(body)
	resp.Sum = sum(body)
	plain := body
	if g, ok := gunzip(body); ok {
		resp.GzOk, resp.GzLen, resp.GzSum = true, len(g), sum(g)
		plain = g
	}
	if len(body) <= 512 {
		resp.Body = body
	}
	var m map[string]interface{}
	if json.Unmarshal(plain, &m) == nil && m != nil {
		resp.Json.Obj = true
		resp.Json.Keys = len(m)
		lower := map[string]interface{}{}
		for k, v := range m {
			lower[strings.ToLower(k)] = v
		}
		c, ok1 := lower["code"].(float64)
		s, ok2 := lower["message"].(string)
		resp.Json.Code, resp.Json.Msg = int(c), s
		resp.Json.Ok = ok1 && ok2
		resp.Json.J8a, _ = lower["j8a"].(string)
		resp.Json.ServerId, _ = lower["serverid"].(string)
		resp.Json.Version, _ = lower["version"].(string)
	}
}

// ------------------------------------------------------------- one case

type run struct {
	c       *Case
	rec     *Rec
	mu      sync.Mutex
	t0      time.Time
	current int
	scripts map[int][]UpAct
	used    map[int]int
	upconn  int
	open    map[net.Conn]bool
	done    chan struct{}
}

func (r *run) ms() int64 { return time.Since(r.t0).Milliseconds() }

func setLinger(c net.Conn) {
	if t, ok := c.(*tls.Conn); ok {
		c = t.NetConn()
	}
	if t, ok := c.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
}

func (r *run) serveUp(i int, raw net.Conn, conf *tls.Config) {
	r.mu.Lock()
	id := r.upconn
	r.upconn++
	uc := &UpConn{Up: i, Conn: id, Opened: r.ms(), Closed: -1}
	r.rec.UpConns = append(r.rec.UpConns, uc)
	r.open[raw] = true
	r.mu.Unlock()
	closed := func() {
		r.mu.Lock()
		if uc.Closed < 0 {
			uc.Closed = r.ms()
		}
		r.mu.Unlock()
	}
	defer closed()
	defer raw.Close()
	if r.c.Ups[i].Mode == "mute" {
		io.Copy(io.Discard, raw)
		return
	}
	var c net.Conn = raw
	if conf != nil {
		tc := tls.Server(raw, conf)
		err := tc.Handshake()
		r.mu.Lock()
		if err != nil {
			uc.Tls = err.Error()
		} else {
			uc.Tls = "ok"
		}
		r.mu.Unlock()
		if err != nil {
			return
		}
		c = tc
	}
	br := bufio.NewReaderSize(c, 64<<10)
	for {
		h, err := readHead(br)
		if err != nil {
			return
		}
		p := strings.SplitN(h.line, " ", 3)
		u := UpSeen{Up: i, Conn: id, Hdrs: h.hdrs, Req: -1, Whole: true, At: r.ms(), End: -1}
		if len(p) == 3 {
			u.Method, u.Target = p[0], p[1]
		}
		var body []byte
		if te, ok := get(h.hdrs, "transfer-encoding"); ok && strings.EqualFold(te, "chunked") {
			body, err = readChunked(br)
		} else if cl, ok := get(h.hdrs, "content-length"); ok {
			n, _ := strconv.Atoi(cl)
			body = make([]byte, n)
			var k int
			k, err = io.ReadFull(br, body)
			body = body[:k]
		}
		if err != nil {
			u.Whole = false
		}
		u.Len, u.Sum = len(body), sum(body)
		r.mu.Lock()
		if tag, ok := get(h.hdrs, "x-vtag"); ok {
			u.Req, _ = strconv.Atoi(tag)
		} else {
			u.Req = r.current
		}
		k := r.used[u.Req]
		r.used[u.Req] = k + 1
		r.rec.Ups = append(r.rec.Ups, u)
		me := len(r.rec.Ups) - 1
		s := r.scripts[u.Req]
		r.mu.Unlock()
		if !u.Whole {
			return
		}
		act := UpAct{Raw: []Frag{{B: []byte("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")}}}
		if u.Method == "HEAD" {
			act = UpAct{Raw: []Frag{{B: []byte("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n")}}}
		}
		if say := r.c.Ups[i].Say; len(say) > 0 {
			act = UpAct{Raw: []Frag{{B: say}}, Then: "close"}
		}
		if k < len(s) {
			act = s[k]
		}
		for _, f := range act.Raw {
			if f.Delay > 0 {
				select {
				case <-time.After(time.Duration(f.Delay) * time.Millisecond):
				case <-r.done:
					return
				}
			}
			if _, err := c.Write(f.B); err != nil {
				return
			}
		}
		r.mu.Lock()
		r.rec.Ups[me].End = r.ms()
		r.mu.Unlock()
		switch act.Then {
		case "close":
			return
		case "reset":
			setLinger(c)
			return
		case "hang":
			io.Copy(io.Discard, c)
			return
		}
	}
}

func (r *run) listenUps() []net.Listener {
	var ls []net.Listener
	for i, d := range r.c.Ups {
		host := d.Host
		if host == "" {
			host = "127.0.0.1"
		}
		if d.Mode == "blackhole" {
			p := blackhole(host)
			r.rec.UpPorts = append(r.rec.UpPorts, p)
			continue
		}
		l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
		if err != nil {
			die("listen", err)
		}
		r.rec.UpPorts = append(r.rec.UpPorts, l.Addr().(*net.TCPAddr).Port)
		if d.Mode == "closed" {
			l.Close()
			continue
		}
		var conf *tls.Config
		if d.CertPem != "" {
			kp, err := tls.X509KeyPair([]byte(d.CertPem), []byte(d.KeyPem))
			if err != nil {
				die("upstream keypair", err)
			}
			conf = &tls.Config{Certificates: []tls.Certificate{kp}}
		}
		ls = append(ls, l)
		go func(i int, l net.Listener) {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go r.serveUp(i, c, conf)
			}
		}(i, l)
	}
	return ls
}

// blackhole is a listening socket whose backlog is full, connection attempts to it just hang
func blackhole(host string) int {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		die(err)
	}
	sa := &syscall.SockaddrInet4{}
	copy(sa.Addr[:], net.ParseIP(host).To4())
	if err = syscall.Bind(fd, sa); err != nil {
		die(err)
	}
	if err = syscall.Listen(fd, 0); err != nil {
		die(err)
	}
	n, _ := syscall.Getsockname(fd)
	port := n.(*syscall.SockaddrInet4).Port
	for i := 0; i < 3; i++ {
		go net.DialTimeout("tcp", fmt.Sprintf("%s:%d", host, port), time.Hour)
	}
	time.Sleep(200 * time.Millisecond)
	return port
}

var nextPort int

func freePort() int {
	for {
		nextPort++
		p := nextPort
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
}

func (r *run) client(ci int, c *Conn) {
	cs := r.rec.Conns[ci]
	to := c.To
	if to == "" {
		to = "127.0.0.1"
	}
	d := net.Dialer{Timeout: 10 * time.Second}
	if c.From != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(c.From)}
	}
	raw, err := d.Dial("tcp", net.JoinHostPort(to, strconv.Itoa(r.rec.Port)))
	cs.Begun, cs.Closed = r.ms(), -1
	if err != nil {
		cs.Err = "dial: " + err.Error()
		for _, q := range c.Reqs {
			r.add(&ReqSeen{Id: q.Id, Conn: ci, Err: cs.Err})
		}
		return
	}
	defer raw.Close()
	var conn net.Conn = raw
	if c.Tls != nil {
		protos := []string{"http/1.1"}
		if c.Tls.H2 {
			protos = []string{"h2"}
		}
		tc := tls.Client(raw, &tls.Config{InsecureSkipVerify: true, MinVersion: c.Tls.Min, MaxVersion: c.Tls.Max, CipherSuites: c.Tls.Suites, NextProtos: protos})
		raw.SetDeadline(time.Now().Add(10 * time.Second))
		if err := tc.Handshake(); err != nil {
			cs.Err = "tls: " + err.Error()
			cs.Ended = r.ms()
			for _, q := range c.Reqs {
				r.add(&ReqSeen{Id: q.Id, Conn: ci, Err: cs.Err})
			}
			return
		}
		raw.SetDeadline(time.Time{})
		st := tc.ConnectionState()
		cs.TlsVer, cs.Suite, cs.Cert = st.Version, st.CipherSuite, st.PeerCertificates[0].SerialNumber.String()
		conn = tc
	}
	if c.Tls != nil && c.Tls.H2 {
		r.clientH2(ci, c, conn)
		cs.Ended = r.ms()
		return
	}
	br := bufio.NewReaderSize(conn, 64<<10)
	send := func(q *Req, s *ReqSeen) {
		for _, f := range q.Raw {
			if f.Delay > 0 {
				time.Sleep(time.Duration(f.Delay) * time.Millisecond)
			}
			if s != nil && r.c.Times {
				r.mu.Lock()
				s.Wrote = append(s.Wrote, r.ms())
				r.mu.Unlock()
			}
			if _, err := conn.Write(f.B); err != nil {
				return
			}
		}
		if q.HalfClose {
			if t, ok := raw.(*net.TCPConn); ok && c.Tls == nil {
				t.CloseWrite()
			} else if t, ok := conn.(*tls.Conn); ok {
				t.CloseWrite()
			} else {
				conn.Close()
			}
		}
	}
	if c.Pipeline {
		go func() {
			for i := range c.Reqs {
				send(&c.Reqs[i], nil)
			}
		}()
	}
	for i := range c.Reqs {
		q := &c.Reqs[i]
		if i > 0 && c.Gap > 0 {
			time.Sleep(time.Duration(c.Gap) * time.Millisecond)
		}
		if r.c.Conc <= 1 {
			r.mu.Lock()
			r.current = q.Id
			r.mu.Unlock()
		}
		if w := int64(q.At) - r.ms(); w > 0 {
			time.Sleep(time.Duration(w) * time.Millisecond)
		}
		s := &ReqSeen{Id: q.Id, Conn: ci, Sent: r.ms(), Local: conn.LocalAddr().String()}
		t := time.Now()
		if !c.Pipeline {
			if q.Abort {
				send(q, s)
				conn.Close()
				s.Err = "aborted"
				r.add(s)
				continue
			}
			go send(q, s)
		}
		to := q.Timeout
		if to == 0 {
			to = 20000
		}
		raw.SetReadDeadline(t.Add(time.Duration(to) * time.Millisecond))
		resp, err := readResponse(br, q.Method, nil)
		s.Ms = time.Since(t).Milliseconds()
		if err != nil {
			s.Err = err.Error()
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				s.Err = "timeout"
			} else if err == io.EOF {
				s.Err = "eof"
			} else if strings.Contains(s.Err, "reset by peer") {
				s.Err = "eof"
			}
		} else {
			s.Resp = resp
		}
		r.add(s)
	}
	if c.Extra > 0 || c.Idle > 0 {
		w := c.Extra
		if c.Idle > w {
			w = c.Idle
		}
		t := time.Now()
		raw.SetReadDeadline(t.Add(time.Duration(w) * time.Millisecond))
		b, err := io.ReadAll(br)
		cs.Extra = len(b)
		if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
			cs.Closed = time.Since(t).Milliseconds()
		}
	}
	cs.Ended = r.ms()
}

// clientH2 sends the same requests over HTTP/2
func (r *run) clientH2(ci int, c *Conn, conn net.Conn) {
	tr := &http.Transport{
		ForceAttemptHTTP2:  true,
		DisableCompression: true,
		DialTLSContext:     func(context.Context, string, string) (net.Conn, error) { return conn, nil },
	}
	defer tr.CloseIdleConnections()
	for i := range c.Reqs {
		q := &c.Reqs[i]
		if r.c.Conc <= 1 {
			r.mu.Lock()
			r.current = q.Id
			r.mu.Unlock()
		}
		s := &ReqSeen{Id: q.Id, Conn: ci, Sent: r.ms(), Local: conn.LocalAddr().String()}
		t := time.Now()
		resp, err := func() (*RespSeen, error) {
			var raw []byte
			for _, f := range q.Raw {
				raw = append(raw, f.B...)
			}
			req, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(raw)))
			if err != nil {
				return nil, fmt.Errorf("not a request: %v", err)
			}
			body, err := io.ReadAll(req.Body)
			if err != nil {
				return nil, fmt.Errorf("not a body: %v", err)
			}
			req.RequestURI = ""
			req.URL.Scheme, req.URL.Host = "https", req.Host
			req.Header.Del("Connection")
			req.Header.Del("Expect")
			declared := req.ContentLength
			req.TransferEncoding = nil
			if len(body) > 0 {
				req.Body = io.NopCloser(bytes.NewReader(body))
				req.ContentLength = declared
			} else {
				req.Body, req.ContentLength = nil, 0
			}
			if _, ok := req.Header["User-Agent"]; !ok {
				req.Header["User-Agent"] = []string{""}
			}
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			a, err := tr.RoundTrip(req.WithContext(ctx))
			if err != nil {
				return nil, err
			}
			defer a.Body.Close()
			b, err := io.ReadAll(a.Body)
			if err != nil {
				return nil, fmt.Errorf("body: %v", err)
			}
			o := &RespSeen{Interim: []int{}, Hdrs: []KV{}, Status: a.StatusCode, Proto: a.Proto, Framing: "h2"}
			for k, vs := range a.Header {
				for _, v := range vs {
					o.Hdrs = append(o.Hdrs, KV{strings.ToLower(k), strings.Trim(v, " \t")})
				}
			}
			if cl, ok := get(o.Hdrs, "content-length"); ok && q.Method != "HEAD" && a.StatusCode != 304 && cl != strconv.Itoa(len(b)) {
				return nil, fmt.Errorf("content-length %s for %d bytes", cl, len(b))
			}
			analyse(o, b)
			return o, nil
		}()
		s.Ms = time.Since(t).Milliseconds()
		if err != nil {
			s.Err = err.Error()
		} else {
			s.Resp = resp
		}
		r.add(s)
	}
}

func (r *run) add(s *ReqSeen) {
	r.mu.Lock()
	r.rec.Reqs = append(r.rec.Reqs, s)
	r.mu.Unlock()
}

type lineBuf struct {
	mu   sync.Mutex
	part []byte
	all  []byte
	acc  []map[string]interface{}
}

func (l *lineBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.all) < 16<<10 || bytes.Contains(p, []byte("panic:")) || bytes.Contains(p, []byte("fatal error")) {
		if len(l.all) < 64<<10 {
			l.all = append(l.all, p...)
		}
	}
	l.part = append(l.part, p...)
	for {
		i := bytes.IndexByte(l.part, '\n')
		if i < 0 {
			return len(p), nil
		}
		line := l.part[:i]
		if bytes.Contains(line, []byte(`"dwnResCode"`)) {
			var m map[string]interface{}
			if json.Unmarshal(line, &m) == nil {
				l.acc = append(l.acc, m)
			}
		}
		l.part = append([]byte{}, l.part[i+1:]...)
	}
}

func (l *lineBuf) count() int { l.mu.Lock(); defer l.mu.Unlock(); return len(l.acc) }

func runCase(c *Case, dir string) *Rec {
	r := &run{c: c, t0: time.Now(), scripts: map[int][]UpAct{}, used: map[int]int{}, current: -1, open: map[net.Conn]bool{}, done: make(chan struct{})}
	r.rec = &Rec{Id: c.Id, Reqs: []*ReqSeen{}, Conns: []*ConnSeen{}, Ups: []UpSeen{}, UpConns: []*UpConn{}, Logs: []map[string]interface{}{}, UpPorts: []int{}}
	rec := r.rec
	for _, cn := range c.Conns {
		for _, q := range cn.Reqs {
			r.scripts[q.Id] = q.Script
		}
		rec.Conns = append(rec.Conns, &ConnSeen{})
	}
	ls := r.listenUps()
	defer func() {
		for _, l := range ls {
			l.Close()
		}
		close(r.done)
		r.mu.Lock()
		for k := range r.open {
			k.Close()
		}
		r.mu.Unlock()
	}()
	wd, err := os.MkdirTemp(dir, "srv")
	if err != nil {
		die(err)
	}
	defer os.RemoveAll(wd)
	rec.Port = freePort()
	subst := func(s string) string {
		s = strings.ReplaceAll(s, "${PORT}", strconv.Itoa(rec.Port))
		for i, p := range rec.UpPorts {
			s = strings.ReplaceAll(s, fmt.Sprintf("${UP%d}", i), strconv.Itoa(p))
		}
		return strings.ReplaceAll(s, "${DIR}", wd)
	}
	yml := subst(c.Yaml)
	env := []string{"PATH=/usr/bin:/bin", "HOME=" + wd, "HOSTNAME=verif", "GOTRACEBACK=single"}
	args := []string{}
	switch c.YamlVia {
	case "", "env":
		env = append(env, "J8ACFG_YML="+yml)
	case "file":
		os.WriteFile(filepath.Join(wd, "some.yml"), []byte(yml), 0644)
		args = append(args, "-c", filepath.Join(wd, "some.yml"))
	case "default":
		os.WriteFile(filepath.Join(wd, "j8acfg.yml"), []byte(yml), 0644)
	}
	for f, t := range c.Files {
		if strings.HasSuffix(f, "/") {
			os.Mkdir(filepath.Join(wd, f), 0755)
			continue
		}
		os.WriteFile(filepath.Join(wd, f), []byte(subst(t)), 0644)
	}
	for k, v := range c.Env {
		env = append(env, k+"="+subst(v))
	}
	for _, a := range c.Args {
		args = append(args, subst(a))
	}
	cmd := exec.Command(c.Bin, args...)
	cmd.Dir, cmd.Env = wd, env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	lb := &lineBuf{}
	cmd.Stderr, cmd.Stdout = lb, lb
	if err := cmd.Start(); err != nil {
		die("start", err)
	}
	exited := make(chan struct{})
	go func() { cmd.Wait(); close(exited) }()
	dead := func() bool {
		select {
		case <-exited:
			return true
		default:
			return false
		}
	}
	bootMs := c.BootMs
	if bootMs == 0 {
		bootMs = 20000
	}
	end := time.Now().Add(time.Duration(bootMs) * time.Millisecond)
	for !dead() && time.Now().Before(end) {
		k, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", rec.Port), time.Second)
		if err == nil {
			k.Close()
			rec.Listening = true
			break
		}
		// a start that is to fail may not listen even for a moment
		if c.Boot && time.Until(end) > time.Duration(bootMs-500)*time.Millisecond {
			time.Sleep(200 * time.Microsecond)
		} else {
			time.Sleep(3 * time.Millisecond)
		}
	}
	if rec.Listening && !c.Boot {
		r.t0 = time.Now()
		conc := c.Conc
		if conc < 1 {
			conc = 1
		}
		sem := make(chan struct{}, conc)
		var wg sync.WaitGroup
		for i := range c.Conns {
			if dead() {
				for _, q := range c.Conns[i].Reqs {
					r.add(&ReqSeen{Id: q.Id, Conn: i, Err: "server is dead"})
				}
				continue
			}
			sem <- struct{}{}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r.client(i, &c.Conns[i])
				<-sem
			}(i)
		}
		wg.Wait()
		if c.Logs {
			want := 0
			for _, q := range rec.Reqs {
				if q.Resp != nil {
					want++
				}
			}
			for i := 0; i < 150 && lb.count() < want && !dead(); i++ {
				time.Sleep(10 * time.Millisecond)
			}
			time.Sleep(30 * time.Millisecond)
		}
		if c.SettleMs > 0 {
			time.Sleep(time.Duration(c.SettleMs) * time.Millisecond)
		}
	}
	rec.Alive = !dead()
	rec.Ended = r.ms()
	if rec.Alive {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	<-exited
	rec.Exit = cmd.ProcessState.ExitCode()
	lb.mu.Lock()
	if c.Logs {
		rec.Logs = append(rec.Logs, lb.acc...)
	}
	if !rec.Alive || !rec.Listening || c.KeepErr {
		rec.Stderr = string(lb.all)
		if len(rec.Stderr) > 6000 && !c.KeepErr {
			rec.Stderr = rec.Stderr[len(rec.Stderr)-6000:]
		}
	}
	lb.mu.Unlock()
	r.mu.Lock()
	defer r.mu.Unlock()
	b, _ := json.Marshal(rec)
	out := &Rec{}
	json.Unmarshal(b, out)
	return out
}

func main() {
	runtime.LockOSThread() // children die with the thread that started them
	if os.Getenv("VV_CERTS") != "" {
		certs()
		return
	}
	in, err := os.Open(os.Getenv("VV_IN"))
	if err != nil {
		die(err)
	}
	out, err := os.OpenFile(os.Getenv("VV_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		die(err)
	}
	from := 0
	fmt.Sscanf(os.Getenv("VV_FROM"), "%d", &from)
	shard := 0
	fmt.Sscanf(os.Getenv("VV_SHARD"), "%d", &shard)
	nextPort = 10000 + shard*2000
	rd := bufio.NewReaderSize(in, 1<<20)
	for i := 0; ; i++ {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 && i >= from {
			var c Case
			if e := json.Unmarshal(line, &c); e != nil {
				die(e)
			}
			b, e := json.Marshal(runCase(&c, os.Getenv("VV_SCRATCH")))
			if e != nil {
				die(e)
			}
			out.Write(append(b, '\n'))
		}
		if err != nil {
			return
		}
	}
}
