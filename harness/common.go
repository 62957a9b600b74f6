package j8a

// Common parts of the conformance drivers. These files live in /verif/harness and are compiled into the
// package with go test -overlay as zz_verif_*_test.go, the repository's own tests are left out of that build.

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	golog "log"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

// vvDrivers are registered by the driver files that are part of a build
var vvDrivers = map[string]func(t *testing.T){}

func TestVerifDriver(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	d, ok := vvDrivers[os.Getenv("VV_DRIVER")]
	if !ok {
		t.Fatalf("no driver %q", os.Getenv("VV_DRIVER"))
	}
	d(t)
}

// vvEachCase feeds the cases of VV_IN (ndjson) from index VV_FROM and writes one record per case to VV_OUT
// before it starts the next one, so that a crash of the code under test can be attributed to a case.
func vvEachCase(t *testing.T, run func(raw json.RawMessage) interface{}) {
	in, err := os.Open(os.Getenv("VV_IN"))
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	out, err := os.OpenFile(os.Getenv("VV_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	from := 0
	fmt.Sscanf(os.Getenv("VV_FROM"), "%d", &from)
	rd := bufio.NewReaderSize(in, 1<<20)
	for i := 0; ; i++ {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 && i >= from {
			rec := run(json.RawMessage(line))
			b, e := json.Marshal(rec)
			if e != nil {
				t.Fatal(e)
			}
			out.Write(append(b, '\n'))
		}
		if err != nil {
			return
		}
	}
}

// vvListener hands out one end of in-memory pipes to an http.Server
type vvListener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
}

func vvNewListener() *vvListener {
	return &vvListener{ch: make(chan net.Conn), closed: make(chan struct{})}
}

func (l *vvListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

func (l *vvListener) Close() error {
	l.once.Do(func() { close(l.closed) })
	return nil
}

type vvAddr string

func (a vvAddr) Network() string { return "tcp" }
func (a vvAddr) String() string  { return string(a) }

func (l *vvListener) Addr() net.Addr { return vvAddr("10.0.0.1:8080") }

type vvConn struct {
	net.Conn
	remote string
}

func (c vvConn) RemoteAddr() net.Addr { return vvAddr(c.remote) }

// Dial returns the client end of a new connection that appears to come from remote
func (l *vvListener) Dial(remote string) net.Conn {
	a, b := net.Pipe()
	select {
	case l.ch <- vvConn{b, remote}:
	case <-l.closed:
	}
	return a
}

type vvNullWriter struct{}

func (vvNullWriter) Write(p []byte) (int, error) { return len(p), nil }

// vvServer runs handler behind a real http.Server on in-memory connections
type vvServer struct {
	*vvListener
	srv *http.Server
}

func vvServe(h http.Handler) *vvServer {
	s := &vvServer{vvListener: vvNewListener(), srv: &http.Server{Handler: h}}
	s.srv.ErrorLog = vvStdLogger()
	go s.srv.Serve(s.vvListener)
	return s
}

func (s *vvServer) Stop() { s.srv.Close() }

// vvStub is the upstream: an HTTPClient whose Do is a function
type vvStub struct {
	do func(req *http.Request) (*http.Response, error)
}

func (s *vvStub) Do(req *http.Request) (*http.Response, error) { return s.do(req) }
func (s *vvStub) Get(uri string) (*http.Response, error) {
	return nil, fmt.Errorf("vvStub: Get not used")
}

type vvResp struct {
	Status  int
	Header  http.Header
	Body    []byte
	BodyErr string // body could not be read completely
	Err     string // no response at all
	Close   bool
}

// vvRoundTrip writes one raw request and reads one response.
func vvReadResponse(br *bufio.Reader, method string) vvResp {
	resp, err := http.ReadResponse(br, &http.Request{Method: method})
	for err == nil && resp.StatusCode == 100 {
		resp, err = http.ReadResponse(br, &http.Request{Method: method})
	}
	if err != nil {
		return vvResp{Err: err.Error()}
	}
	r := vvResp{Status: resp.StatusCode, Header: resp.Header, Close: resp.Close}
	b, err := ioutil.ReadAll(resp.Body)
	r.Body = b
	if err != nil {
		r.BodyErr = err.Error()
	}
	return r
}

type vvLockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *vvLockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *vvLockedBuf) Take() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := l.b.String()
	l.b.Reset()
	return s
}

// vvCaptureLog redirects the server log into a buffer
func vvCaptureLog(level zerolog.Level) *vvLockedBuf {
	buf := &vvLockedBuf{}
	log.Logger = zerolog.New(buf)
	zerolog.SetGlobalLevel(level)
	return buf
}

// vvIsOwnJSON tells whether a body is one of the proxy's own JSON status responses, returns code and message
func vvIsOwnJSON(b []byte) (code int, msg string, ok bool) {
	var m map[string]interface{}
	if json.Unmarshal(b, &m) != nil {
		return 0, "", false
	}
	lower := map[string]interface{}{}
	for k, v := range m {
		lower[strings.ToLower(k)] = v
	}
	c, okc := lower["code"].(float64)
	s, okm := lower["message"].(string)
	_, okj := lower["j8a"].(string)
	return int(c), s, okc && okm && okj
}

func vvMs(start time.Time) int64 { return time.Since(start).Milliseconds() }

func vvAll(r io.Reader) []byte {
	if r == nil {
		return nil
	}
	b, _ := ioutil.ReadAll(r)
	return b
}

func vvInt(s string, dflt int) int {
	v := dflt
	fmt.Sscanf(os.Getenv(s), "%d", &v)
	return v
}

func vvStdLogger() *golog.Logger { return golog.New(vvNullWriter{}, "", 0) }

func vvGunzip(b []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	out, err := ioutil.ReadAll(r)
	if err != nil {
		return nil
	}
	if out == nil {
		out = []byte{}
	}
	return out
}

func vvGzip(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}
