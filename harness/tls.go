package j8a

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

// Driver for the daily check of certificates (spec TlsHealth): runs it for weeks and months of virtual time.

func init() { vvDrivers["tls"] = vvTls }

type vvTlsCert struct {
	Name, Issuer, CN string
	CA               bool
	Serial           string // hex
	From, Until      int64  // minutes relative to the start
}

type vvTlsCase struct {
	Certs []vvTlsCert
	File  []string // the order of certificates in the configuration
	Run   int64    // minutes
}

type vvTlsLine struct {
	T     int64  `json:"t"` // seconds
	Level string `json:"level"`
	Text  string `json:"text"`
}

type vvTlsRec struct {
	Lines []vvTlsLine `json:"lines"`
	Ended int64       `json:"ended"` // when the check gave up, -1: it did not
}

type vvTlsWriter struct {
	mu    sync.Mutex
	start time.Time
	rec   *vvTlsRec
	stop  bool
}

func (w *vvTlsWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	stop := w.stop
	if !stop {
		var l struct{ Level, Message string }
		json.Unmarshal(p, &l)
		w.rec.Lines = append(w.rec.Lines, vvTlsLine{int64(time.Since(w.start) / time.Second), l.Level, l.Message})
	}
	w.mu.Unlock()
	if stop {
		runtime.Goexit()
	}
	return len(p), nil
}

func vvTlsMake(start time.Time, specs []vvTlsCert) (map[string][]byte, map[string]crypto.Signer) {
	ders, keys, certs := map[string][]byte{}, map[string]crypto.Signer{}, map[string]*x509.Certificate{}
	for _, s := range specs {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		n, _ := new(big.Int).SetString(s.Serial, 16)
		t := &x509.Certificate{
			SerialNumber:          n,
			Subject:               pkix.Name{CommonName: s.CN},
			DNSNames:              []string{"a.example", "b.example"},
			NotBefore:             start.Add(time.Duration(s.From) * time.Minute),
			NotAfter:              start.Add(time.Duration(s.Until) * time.Minute),
			BasicConstraintsValid: true,
			IsCA:                  s.CA,
			KeyUsage:              x509.KeyUsageDigitalSignature,
			ExtKeyUsage:           []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		}
		if s.CA {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		var signer crypto.Signer = k
		parent := t
		if s.Issuer != "" {
			signer, parent = keys[s.Issuer], certs[s.Issuer]
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, k.Public(), signer)
		if err != nil {
			panic(fmt.Sprint("certificate not made: ", err))
		}
		ders[s.Name], keys[s.Name] = der, k
		certs[s.Name], err = x509.ParseCertificate(der)
		if err != nil {
			panic(fmt.Sprint("certificate not read: ", err))
		}
	}
	return ders, keys
}

func vvTls(t *testing.T) {
	vvEachCase(t, func(raw json.RawMessage) interface{} {
		var c vvTlsCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		rec := &vvTlsRec{Ended: -1, Lines: []vvTlsLine{}}
		synctest.Test(t, func(t *testing.T) {
			start := time.Now()
			ders, keys := vvTlsMake(start, c.Certs)
			w := &vvTlsWriter{start: start, rec: rec}
			log.Logger = zerolog.New(w)
			zerolog.SetGlobalLevel(zerolog.TraceLevel)
			chain := tls.Certificate{PrivateKey: keys[c.File[0]]}
			for _, f := range c.File {
				chain.Certificate = append(chain.Certificate, ders[f])
			}
			chain.Leaf, _ = x509.ParseCertificate(chain.Certificate[0])
			conf := &tls.Config{Certificates: []tls.Certificate{chain}}
			done := make(chan struct{})
			go func() {
				defer close(done)
				tlsHealthCheck(conf, true)
			}()
			select {
			case <-done:
				rec.Ended = int64(time.Since(start) / time.Second)
				time.Sleep(time.Duration(c.Run)*time.Minute - time.Since(start))
				return
			case <-time.After(time.Duration(c.Run)*time.Minute + time.Second):
			}
			// make it stop: the next report ends it, a certificate that is good for long provokes one
			w.mu.Lock()
			w.stop = true
			w.mu.Unlock()
			day := time.Hour * 24
			other, _ := vvTlsMake(start, []vvTlsCert{{Name: "x", CN: "x", CA: true, Serial: "77", From: -1, Until: 60 * 24 * 365 * 250}})
			conf.Certificates[0].Certificate[0] = bytes.Clone(other["x"])
			for i := 0; i < 3; i++ {
				select {
				case <-done:
					return
				case <-time.After(day):
				}
			}
			conf.Certificates[0].Certificate[0] = nil
			conf.Certificates = nil
			select {
			case <-done:
			case <-time.After(3 * day):
				fmt.Println("the check of certificates can not be stopped")
				os.Exit(3)
			}
		})
		return rec
	})
}
