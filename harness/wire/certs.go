package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"time"
)

// certs reads a list of certificate descriptions from stdin and writes the PEM encoded results to stdout.

type CertSpec struct {
	Name   string
	Issuer string // "" : self signed
	CN     string
	DNS    []string
	IP     []string
	CA     bool
	Key    string // rsa, p256, p384, p521
	From   int64  // seconds relative to now
	Until  int64
	Serial string // decimal
	Base   int64  // what From and Until are relative to, 0: now
}

type CertOut struct {
	Cert, Key, Pub string
	Jwk            map[string]string // public key, without alg and kid
	NotBefore      int64
	NotAfter       int64
}

func pubPem(p interface{}) string {
	b, _ := x509.MarshalPKIXPublicKey(p)
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}

func jwkOf(p interface{}) map[string]string {
	e := base64.RawURLEncoding
	switch k := p.(type) {
	case *rsa.PublicKey:
		return map[string]string{"kty": "RSA", "n": e.EncodeToString(k.N.Bytes()), "e": e.EncodeToString(big.NewInt(int64(k.E)).Bytes())}
	case *ecdsa.PublicKey:
		n := (k.Curve.Params().BitSize + 7) / 8
		return map[string]string{"kty": "EC", "crv": k.Curve.Params().Name, "x": e.EncodeToString(k.X.FillBytes(make([]byte, n))), "y": e.EncodeToString(k.Y.FillBytes(make([]byte, n)))}
	}
	return nil
}

func certs() {
	var specs []CertSpec
	if err := json.NewDecoder(os.Stdin).Decode(&specs); err != nil {
		die(err)
	}
	type made struct {
		c *x509.Certificate
		k crypto.Signer
	}
	done := map[string]made{}
	out := map[string]CertOut{}
	now := time.Now()
	real := now
	for i, s := range specs {
		now = real
		if s.Base != 0 {
			now = time.Unix(s.Base, 0)
		}
		var k crypto.Signer
		var err error
		switch s.Key {
		case "p256":
			k, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		case "p384":
			k, err = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
		case "p521":
			k, err = ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
		default:
			k, err = rsa.GenerateKey(rand.Reader, 2048)
		}
		if err != nil {
			die(err)
		}
		serial := big.NewInt(int64(i + 1000))
		if s.Serial != "" {
			serial.SetString(s.Serial, 10)
		}
		t := &x509.Certificate{
			SerialNumber:          serial,
			Subject:               pkix.Name{CommonName: s.CN},
			DNSNames:              s.DNS,
			IPAddresses:           ips(s.IP),
			NotBefore:             now.Add(time.Duration(s.From) * time.Second),
			NotAfter:              now.Add(time.Duration(s.Until) * time.Second),
			BasicConstraintsValid: true,
			IsCA:                  s.CA,
			KeyUsage:              x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment,
			ExtKeyUsage:           []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		}
		if s.CA {
			t.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageCRLSign
			t.ExtKeyUsage = nil
		}
		parent, signer := t, k
		if s.Issuer != "" {
			parent, signer = done[s.Issuer].c, done[s.Issuer].k
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, k.Public(), signer)
		if err != nil {
			die(err)
		}
		c, err := x509.ParseCertificate(der)
		if err != nil {
			die(err)
		}
		kb, err := x509.MarshalPKCS8PrivateKey(k)
		if err != nil {
			die(err)
		}
		done[s.Name] = made{c, k}
		out[s.Name] = CertOut{
			Cert:      string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})),
			Key:       string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})),
			Pub:       pubPem(k.Public()),
			Jwk:       jwkOf(k.Public()),
			NotBefore: c.NotBefore.Unix(), NotAfter: c.NotAfter.Unix(),
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func ips(s []string) (r []net.IP) {
	for _, x := range s {
		r = append(r, net.ParseIP(x))
	}
	return r
}
