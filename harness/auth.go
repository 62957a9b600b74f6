package j8a

import (
	"bufio"
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// Driver for route authorisation and key rotation (spec Auth): plays requests with tokens and key set publications
// in virtual time against the real handler.

func init() {
	vvDrivers["auth"] = vvAuth
	vvDrivers["keymat"] = vvKeymat
}

type vvKeyStore struct {
	rsa map[string]*rsa.PrivateKey
	ec  map[string]*ecdsa.PrivateKey
	sec map[string][]byte
}

var vvKeys *vvKeyStore

func vvNewKeys() *vvKeyStore {
	ks := &vvKeyStore{map[string]*rsa.PrivateKey{}, map[string]*ecdsa.PrivateKey{}, map[string][]byte{}}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, n := range []string{"r1", "r2", "r3", "r4"} {
		wg.Add(1)
		go func(n string) {
			defer wg.Done()
			k, err := rsa.GenerateKey(rand.Reader, 2048)
			if err != nil {
				panic(err)
			}
			mu.Lock()
			ks.rsa[n] = k
			mu.Unlock()
		}(n)
	}
	wg.Wait()
	for c, crv := range map[string]elliptic.Curve{"224": elliptic.P224(), "256": elliptic.P256(), "384": elliptic.P384(), "521": elliptic.P521()} {
		for _, s := range []string{"a", "b", "c", "d"} {
			k, err := ecdsa.GenerateKey(crv, rand.Reader)
			if err != nil {
				panic(err)
			}
			ks.ec["p"+c+s] = k
		}
	}
	for _, n := range []string{"s1", "s2", "s3", "s4"} {
		ks.sec[n] = []byte("secret-" + n + "-0123456789abcdefghijklmnopqrstuvwxyz")
	}
	return ks
}

func (ks *vvKeyStore) pub(n string) interface{} {
	if k, ok := ks.rsa[n]; ok {
		return &k.PublicKey
	}
	if k, ok := ks.ec[n]; ok {
		return &k.PublicKey
	}
	return nil
}

func (ks *vvKeyStore) pubPem(n string) string {
	b, err := x509.MarshalPKIXPublicKey(ks.pub(n))
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}

func (ks *vvKeyStore) certDer(n string) []byte {
	var priv interface{}
	if k, ok := ks.rsa[n]; ok {
		priv = k
	} else {
		priv = ks.ec[n]
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: "jwt"},
		NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0)}
	b, err := x509.CreateCertificate(rand.Reader, t, t, ks.pub(n), priv)
	if err != nil {
		panic(err)
	}
	return b
}

func (ks *vvKeyStore) certPem(n string) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ks.certDer(n)}))
}

func (ks *vvKeyStore) jwk(n string, priv bool) map[string]interface{} {
	e := func(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }
	m := map[string]interface{}{}
	if k, ok := ks.rsa[n]; ok {
		m["kty"], m["n"], m["e"] = "RSA", e(k.N.Bytes()), e(big.NewInt(int64(k.E)).Bytes())
		if priv {
			m["d"], m["p"], m["q"] = e(k.D.Bytes()), e(k.Primes[0].Bytes()), e(k.Primes[1].Bytes())
		}
	} else if k, ok := ks.ec[n]; ok {
		l := (k.Curve.Params().BitSize + 7) / 8
		m["kty"], m["crv"] = "EC", fmt.Sprintf("P-%d", k.Curve.Params().BitSize)
		m["x"], m["y"] = e(k.X.FillBytes(make([]byte, l))), e(k.Y.FillBytes(make([]byte, l)))
		if priv {
			m["d"] = e(k.D.FillBytes(make([]byte, l)))
		}
	} else if k, ok := ks.sec[n]; ok {
		m["kty"], m["k"] = "oct", e(k)
	}
	return m
}

var vvTmpl = regexp.MustCompile(`\$\{(jwk|pub|cert|sec|x5c):([a-z0-9]+)\}`)

var vvPemTmpl = regexp.MustCompile(`\$\{pem:([^:}]*):([a-z0-9]+):([a-z0-9]+):([0-9]+)\}`)
var vvEd = ed25519.NewKeyFromSeed([]byte("0123456789abcdef0123456789abcdef"))

// pem block with any label and any content
func (ks *vvKeyStore) pemBlock(label, body, key string, seed int) string {
	var der []byte
	var err error
	var priv crypto.Signer = vvEd
	if k, ok := ks.rsa[key]; ok {
		priv = k
	} else if k, ok := ks.ec[key]; ok {
		priv = k
	}
	b := body
	if b == "mangled" {
		b = "spki"
		if label == "CERTIFICATE" {
			b = "cert"
		}
	}
	switch b {
	case "spki":
		der, err = x509.MarshalPKIXPublicKey(priv.Public())
	case "cert":
		t := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: "jwt"}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0)}
		der, err = x509.CreateCertificate(rand.Reader, t, t, priv.Public(), priv)
	case "pkcs1":
		pub := &ks.rsa["r1"].PublicKey
		if k, ok := ks.rsa[key]; ok {
			pub = &k.PublicKey
		}
		der = x509.MarshalPKCS1PublicKey(pub)
	case "private":
		if k, ok := priv.(*rsa.PrivateKey); ok && seed%2 == 0 {
			der = x509.MarshalPKCS1PrivateKey(k)
		} else if k, ok := priv.(*ecdsa.PrivateKey); ok && seed%2 == 0 {
			der, err = x509.MarshalECPrivateKey(k)
		} else {
			der, err = x509.MarshalPKCS8PrivateKey(priv)
		}
	case "garbage":
		der = make([]byte, 1+seed%300)
		rand.Read(der)
		der[0] = byte(seed) | 1
	case "empty":
		der = nil
	}
	if err != nil {
		panic(err)
	}
	text := string(pem.EncodeToMemory(&pem.Block{Type: label, Bytes: der}))
	switch {
	case b == "broken":
		text = "-----BEGIN " + label + "-----\n!!!! this is not base64 !!!!\n-----END " + label + "-----\n"
	case body == "mangled":
		l := len(der)
		switch seed % 6 {
		case 0:
			der[(seed/6)%l] ^= 1 << uint(seed%8)
		case 1:
			der = der[:(seed/6)%l]
		case 2:
			der = append(der, byte(seed))
		case 3:
			der = append(der[:(seed/6)%l:(seed/6)%l], der[(seed/6)%l+1:]...)
		case 4:
			der[(seed/6)%l] = byte(seed >> 8)
		}
		text = string(pem.EncodeToMemory(&pem.Block{Type: label, Bytes: der}))
		if seed%6 == 5 {
			k := (seed / 6) % len(text)
			text = text[:k] + string(rune(32+seed%90)) + text[k+1:]
		}
	}
	return text
}

// expand replaces references to keys in texts
func (ks *vvKeyStore) expand(s string) string {
	s = vvPemTmpl.ReplaceAllStringFunc(s, func(m string) string {
		p := vvPemTmpl.FindStringSubmatch(m)
		n, _ := strconv.Atoi(p[4])
		return ks.pemBlock(p[1], p[2], p[3], n)
	})
	return vvTmpl.ReplaceAllStringFunc(s, func(m string) string {
		p := vvTmpl.FindStringSubmatch(m)
		switch p[1] {
		case "jwk":
			b, _ := json.Marshal(ks.jwk(p[2], false))
			return string(b)
		case "pub":
			return ks.pubPem(p[2])
		case "cert":
			return ks.certPem(p[2])
		case "x5c":
			return base64.StdEncoding.EncodeToString(ks.certDer(p[2]))
		default:
			return string(ks.sec[p[2]])
		}
	})
}

func vvHash(alg string) crypto.Hash {
	switch alg[2:] {
	case "384":
		return crypto.SHA384
	case "512":
		return crypto.SHA512
	}
	return crypto.SHA256
}

func (ks *vvKeyStore) sign(alg, key string, data []byte) []byte {
	if alg == "none" || alg == "" {
		return nil
	}
	h := vvHash(alg)
	w := h.New()
	w.Write(data)
	d := w.Sum(nil)
	var sig []byte
	var err error
	switch alg[:2] {
	case "RS":
		sig, err = rsa.SignPKCS1v15(rand.Reader, ks.rsa[key], h, d)
	case "PS":
		sig, err = rsa.SignPSS(rand.Reader, ks.rsa[key], h, d, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	case "ES":
		k := ks.ec[key]
		r, s, e := ecdsa.Sign(rand.Reader, k, d)
		err = e
		if e == nil {
			l := (k.Curve.Params().BitSize + 7) / 8
			sig = append(r.FillBytes(make([]byte, l)), s.FillBytes(make([]byte, l))...)
		}
	case "HS":
		secret := ks.sec[key]
		if strings.HasPrefix(key, "pub:") {
			secret = []byte(ks.pubPem(key[4:]))
		}
		if strings.HasPrefix(key, "lit:") {
			secret = []byte(key[4:])
		}
		m := hmac.New(h.New, secret)
		m.Write(data)
		sig = m.Sum(nil)
	}
	if err != nil {
		panic(err)
	}
	return sig
}

type vvTok struct {
	Sign string // algorithm it is signed with
	Key  string
	Hdr  string // header JSON
	Pay  string // payload JSON
	Mut  string
	Form string // compact, flat, general
	Lit  string // instead of all that
}

// signatures of the case so far: what is presented again is the same to the byte
var vvSigs = map[string][]byte{}
var vvSigsMu sync.Mutex

func (ks *vvKeyStore) signed(alg, key, data string) []byte {
	vvSigsMu.Lock()
	defer vvSigsMu.Unlock()
	n := alg + " " + key + " " + data
	if vvSigs[n] == nil {
		vvSigs[n] = ks.sign(alg, key, []byte(data))
	}
	return vvSigs[n]
}

func (ks *vvKeyStore) token(t vvTok) string {
	if t.Lit != "" {
		return t.Lit
	}
	e := base64.RawURLEncoding
	h := e.EncodeToString([]byte(ks.expand(t.Hdr)))
	p := e.EncodeToString([]byte(t.Pay))
	sig := ks.signed(t.Sign, t.Key, h+"."+p)
	s := e.EncodeToString(sig)
	flip := func(x string, i int) string {
		if len(x) == 0 {
			return "AAAA"
		}
		b, _ := e.DecodeString(x)
		b[i%len(b)] ^= 0x11
		return e.EncodeToString(b)
	}
	switch t.Mut {
	case "sig":
		s = flip(s, 5)
	case "sigend":
		s = flip(s, len(sig)-1)
	case "payload":
		p = flip(p, len(t.Pay)/2)
	case "claims": // a different, well formed payload under the signature of the first
		p = e.EncodeToString([]byte(strings.Replace(t.Pay, `"sub":"u"`, `"sub":"admin"`, 1)))
	case "header":
		h = e.EncodeToString([]byte(strings.Replace(ks.expand(t.Hdr), "{", `{"x":1,`, 1)))
	case "nosig":
		s = ""
	case "twoparts":
		return h + "." + p
	case "cutsig":
		s = s[:len(s)/2/4*4]
	case "zerosig":
		s = e.EncodeToString(make([]byte, len(sig)))
	case "emptyhdr":
		h = ""
	case "extra":
		return h + "." + p + "." + s + ".AAAA"
	case "onepart":
		return h
	case "sigasder":
		s = e.EncodeToString(append([]byte{0x30, byte(len(sig))}, sig...))
	}
	switch t.Form {
	case "flat":
		return fmt.Sprintf(`{"payload":"%s","protected":"%s","signature":"%s"}`, p, h, s)
	case "general":
		return fmt.Sprintf(`{"payload":"%s","signatures":[{"protected":"%s","signature":"%s"}]}`, p, h, s)
	}
	return h + "." + p + "." + s
}

type vvJwtCfg struct {
	Name, Alg, Key, Skew string
	Jwks                 bool
}

type vvEntry struct {
	Kid, Alg, Key, Use string
	Priv               bool
	NoKid              bool
	Raw                string
}

type vvPub struct {
	At      int64
	Jwt     string
	Mode    string // ok, status, garbage, empty, nokeys, err, hang, hangbody, single
	Status  int
	Delay   int64 // ms until the response is there
	Drip    int64 // ms until its body is complete
	Entries []vvEntry
}

type vvAuthReq struct {
	Id     int
	At     int64
	Path   string
	Method string
	Auth   []string // header values, %T is the token
	Tok    vvTok
	Conc   int // sent this many times at once
}

type vvAuthCase struct {
	Id     int
	Jwts   []vvJwtCfg
	Routes [][2]string // path, jwt
	Pubs   []vvPub
	Reqs   []vvAuthReq
	End    int64
}

type vvAuthEv struct {
	E      string `json:"e"`
	T      int64  `json:"t"`
	Id     int    `json:"id"`
	J      string `json:"j"`
	Pub    int    `json:"pub"`
	Status int    `json:"status"`
	Ups    int    `json:"ups"`
	Note   string `json:"note"`
}

type vvAuthRec struct {
	Id   int        `json:"id"`
	Boot string     `json:"boot"`
	Ev   []vvAuthEv `json:"ev"`
}

type vvAuthRun struct {
	mu     sync.Mutex
	start  time.Time
	over   chan struct{}
	closed bool
	rec    *vvAuthRec
	c      *vvAuthCase
	ups    map[string]int
	boot   bool
}

func (r *vvAuthRun) ev(e vvAuthEv) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.closed {
		return
	}
	e.T = vvMs(r.start)
	r.rec.Ev = append(r.rec.Ev, e)
}

func (r *vvAuthRun) wait(ctx context.Context, ms int64) error {
	if ms < 0 {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-r.over:
			return errors.New("over")
		}
	}
	// half a millisecond more, so that it never coincides with a request
	tm := time.NewTimer(time.Duration(ms)*time.Millisecond + 500*time.Microsecond)
	defer tm.Stop()
	select {
	case <-tm.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	case <-r.over:
		return errors.New("over")
	}
}

type vvJwksBody struct {
	r    *vvAuthRun
	ctx  context.Context
	drip int64
	rd   io.Reader
	done func(string)
	err  error
}

func (b *vvJwksBody) Read(p []byte) (int, error) {
	if b.err != nil {
		return 0, b.err
	}
	if b.drip != 0 {
		if err := b.r.wait(b.ctx, b.drip); err != nil {
			b.err = err
			b.done("cut")
			return 0, err
		}
		b.drip = 0
	}
	n, err := b.rd.Read(p)
	if err == io.EOF {
		b.done("")
	}
	return n, err
}

func (b *vvJwksBody) Close() error { b.done("closed"); return nil }

// RoundTrip is the key set endpoint
func (r *vvAuthRun) RoundTrip(req *http.Request) (*http.Response, error) {
	j := strings.TrimPrefix(req.URL.Path, "/")
	now := vvMs(r.start)
	k := -1
	for i, p := range r.c.Pubs {
		if p.Jwt == j && p.At <= now {
			k = i
		}
	}
	r.ev(vvAuthEv{E: "fetch", J: j, Pub: k})
	var once sync.Once
	done := func(note string) {
		once.Do(func() { r.ev(vvAuthEv{E: "fetched", J: j, Pub: k, Note: note}) })
	}
	if k < 0 {
		done("none")
		return nil, errors.New("no such endpoint")
	}
	p := r.c.Pubs[k]
	if p.Mode == "hang" {
		p.Delay = -1
	}
	if err := r.wait(req.Context(), p.Delay); err != nil {
		done("cut")
		return nil, err
	}
	if p.Mode == "err" {
		done("err")
		return nil, errors.New("connection reset by peer")
	}
	var keys []string
	for _, e := range p.Entries {
		if e.Raw != "" {
			keys = append(keys, vvKeys.expand(e.Raw))
			continue
		}
		m := vvKeys.jwk(e.Key, e.Priv)
		if !e.NoKid {
			m["kid"] = e.Kid
		}
		if e.Alg != "" {
			m["alg"] = e.Alg
		}
		if e.Use != "" {
			m["use"] = e.Use
		}
		b, _ := json.Marshal(m)
		keys = append(keys, string(b))
	}
	body := `{"keys":[` + strings.Join(keys, ",") + `]}`
	status := 200
	switch p.Mode {
	case "status":
		status = p.Status
	case "garbage":
		body = "<html>not json"
	case "cutjson":
		body = body[:len(body)/2]
	case "empty":
		body = ""
	case "nokeys":
		body = `{"keys":[]}`
	case "null":
		body = "null"
	case "list":
		body = "[" + strings.Join(keys, ",") + "]"
	case "keysnull":
		body = `{"keys":null}`
	}
	drip := p.Drip
	if p.Mode == "hangbody" {
		drip = -1
	}
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Header: http.Header{"Content-Type": {"application/json"}},
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, ContentLength: -1, Request: req,
		Body: &vvJwksBody{r: r, ctx: req.Context(), drip: drip, rd: bytes.NewReader([]byte(body)), done: done}}, nil
}

func (r *vvAuthRun) request(srv *vvServer, q vvAuthReq, k int) {
	tok := vvKeys.token(q.Tok)
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: x\r\nX-Vtag: %d-%d\r\n", q.Method, strings.Replace(q.Path, "%T", tok, 1), q.Id, k)
	for _, a := range q.Auth {
		fmt.Fprintf(&b, "Authorization: %s\r\n", strings.Replace(a, "%T", tok, 1))
	}
	b.WriteString("Connection: close\r\n\r\n")
	cl := srv.Dial("127.0.0.1:4711")
	defer cl.Close()
	go cl.Write(b.Bytes())
	resp := vvReadResponse(bufio.NewReader(cl), q.Method)
	r.mu.Lock()
	n := r.ups[fmt.Sprintf("%d-%d", q.Id, k)]
	r.mu.Unlock()
	e := vvAuthEv{E: "req", Id: q.Id, Status: resp.Status, Ups: n}
	if resp.Err != "" {
		e.Note = resp.Err
	}
	r.ev(e)
}

func vvAuth(t *testing.T) {
	vvKeys = vvNewKeys()
	vvEachCase(t, func(raw json.RawMessage) interface{} {
		var c vvAuthCase
		if err := json.Unmarshal(raw, &c); err != nil {
			t.Fatal(err)
		}
		vvSigsMu.Lock()
		vvSigs = map[string][]byte{}
		vvSigsMu.Unlock()
		rec := &vvAuthRec{Id: c.Id, Ev: []vvAuthEv{}}
		oldTransport := http.DefaultTransport
		synctest.Test(t, func(t *testing.T) {
			r := &vvAuthRun{start: time.Now(), over: make(chan struct{}), rec: rec, c: &c, ups: map[string]int{}}
			http.DefaultTransport = r
			rt := vvGwRuntimeFor(2, 20, 30)
			rt.Jwt = map[string]*Jwt{}
			booted := make(chan string, 1)
			go func() {
				for _, j := range c.Jwts {
					url := ""
					if j.Jwks {
						url = "http://keys.example/" + j.Name
					}
					jw := NewJwt(j.Name, j.Alg, vvKeys.expand(j.Key), url, j.Skew)
					if err := jw.Validate(); err != nil {
						booted <- err.Error()
						return
					}
					rt.Jwt[j.Name] = jw
				}
				booted <- ""
			}()
			rec.Boot = <-booted
			if rec.Boot == "" {
				rt.Routes = Routes{}
				for _, x := range c.Routes {
					rt.Routes = append(rt.Routes, Route{Path: x[0], Jwt: x[1], Resource: "up"})
				}
				Runner = rt
				httpClient = &vvStub{func(req *http.Request) (*http.Response, error) {
					r.mu.Lock()
					r.ups[req.Header.Get("X-Vtag")]++
					r.mu.Unlock()
					return &http.Response{StatusCode: 200, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
						ContentLength: -1, Request: req, Body: io.NopCloser(bytes.NewReader([]byte("hello")))}, nil
				}}
				srv := vvServe(http.HandlerFunc(proxyHandler))
				var wg sync.WaitGroup
				for i := range c.Reqs {
					q := c.Reqs[i]
					d := q.At - vvMs(r.start)
					if d > 0 {
						time.Sleep(time.Duration(d) * time.Millisecond)
					}
					n := q.Conc
					if n < 1 {
						n = 1
					}
					for k := 0; k < n; k++ {
						wg.Add(1)
						go func(k int) { defer wg.Done(); r.request(srv, q, k) }(k)
					}
					if i+1 < len(c.Reqs) && c.Reqs[i+1].At > q.At {
						wg.Wait()
					}
				}
				wg.Wait()
				if d := c.End - vvMs(r.start); d > 0 {
					time.Sleep(time.Duration(d) * time.Millisecond)
				}
				srv.Stop()
			}
			r.mu.Lock()
			r.closed = true
			r.mu.Unlock()
			close(r.over)
			time.Sleep(1000 * time.Second)
		})
		http.DefaultTransport = oldTransport
		return rec
	})
}

func vvGwRuntimeFor(m, r, tt int) *Runtime {
	return &Runtime{
		Start: time.Now(),
		Config: Config{
			Connection: Connection{
				Upstream: Upstream{ReadTimeoutSeconds: r, SocketTimeoutSeconds: 3, IdleTimeoutSeconds: 120, MaxAttempts: m, PoolSize: 2},
				Downstream: Downstream{IdleTimeoutSeconds: 120, ReadTimeoutSeconds: 120, RoundTripTimeoutSeconds: tt,
					Mode: "HTTP", Port: 8080, MaxBodyBytes: 1 << 20},
			},
			Resources: map[string][]ResourceMapping{"up": {{Name: "up", URL: URL{"http", "up.example", 9000}}}},
		},
	}
}

// ---------------------------------------------------------------- key material (spec Keymat)

type vvKeymatCase struct {
	Id   int
	Cfg  vvJwtCfg
	Toks []vvTok // tokens that are tried if it is accepted
	Pubs []vvPub
}

type vvKeymatRec struct {
	Id   int    `json:"id"`
	Ok   bool   `json:"ok"`
	Err  string `json:"err"`
	Held int    `json:"held"`
	Skew string `json:"skew"`
	Adm  []bool `json:"adm"`
}

func vvKeymat(t *testing.T) {
	vvKeys = vvNewKeys()
	vvEachCase(t, func(raw json.RawMessage) interface{} {
		var c vvKeymatCase
		if err := json.Unmarshal(raw, &c); err != nil {
			t.Fatal(err)
		}
		rec := &vvKeymatRec{Id: c.Id, Adm: []bool{}}
		oldTransport := http.DefaultTransport
		synctest.Test(t, func(t *testing.T) {
			r := &vvAuthRun{start: time.Now(), over: make(chan struct{}), rec: &vvAuthRec{}, c: &vvAuthCase{Pubs: c.Pubs}, ups: map[string]int{}}
			http.DefaultTransport = r
			url := ""
			if c.Cfg.Jwks {
				url = "http://keys.example/" + c.Cfg.Name
				if c.Cfg.Name == "" {
					url += "x"
				}
			}
			jw := NewJwt(c.Cfg.Name, c.Cfg.Alg, vvKeys.expand(c.Cfg.Key), url, c.Cfg.Skew)
			err := jw.Validate()
			rec.Ok = err == nil
			if err != nil {
				rec.Err = err.Error()
			}
			rec.Held = len(jw.RSAPublic) + len(jw.ECDSAPublic) + len(jw.Secret)
			rec.Skew = jw.AcceptableSkewSeconds
			if rec.Ok && len(c.Toks) > 0 {
				rt := vvGwRuntimeFor(1, 20, 30)
				rt.Jwt = map[string]*Jwt{c.Cfg.Name: jw}
				rt.Routes = Routes{{Path: "/", Jwt: c.Cfg.Name, Resource: "up"}}
				Runner = rt
				httpClient = &vvStub{func(req *http.Request) (*http.Response, error) {
					return &http.Response{StatusCode: 200, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
						ContentLength: -1, Request: req, Body: io.NopCloser(bytes.NewReader([]byte("hello")))}, nil
				}}
				srv := vvServe(http.HandlerFunc(proxyHandler))
				for i, tk := range c.Toks {
					r.request(srv, vvAuthReq{Id: i, Path: "/", Method: "GET", Auth: []string{"Bearer %T"}, Tok: tk}, 0)
				}
				for _, e := range r.rec.Ev {
					if e.E == "req" {
						rec.Adm = append(rec.Adm, e.Status == 200)
					}
				}
				srv.Stop()
			}
			close(r.over)
			time.Sleep(1000 * time.Second)
		})
		http.DefaultTransport = oldTransport
		return rec
	})
}
