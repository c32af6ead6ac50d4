// gencerts writes the (committed) certificates of the simulated servers that
// don't exist yet.
package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func main() {
	dir := os.Args[1]
	from, to := time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2190, 1, 1, 0, 0, 0, 0, time.UTC)
	serial := int64(1)
	keys := map[string]crypto.Signer{}
	usage := x509.ExtKeyUsageServerAuth
	var ips []net.IP
	mk := func(name string, key crypto.Signer, parent *x509.Certificate, pkey crypto.Signer, hosts []string, nb, na time.Time, ca bool) *x509.Certificate {
		serial++
		if b, err := os.ReadFile(filepath.Join(dir, name+".pem")); err == nil {
			block, rest := pem.Decode(b)
			c, _ := x509.ParseCertificate(block.Bytes)
			block, _ = pem.Decode(rest)
			k, _ := x509.ParsePKCS8PrivateKey(block.Bytes)
			keys[name] = k.(crypto.Signer)
			return c
		}
		keys[name] = key
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: nb, NotAfter: na, DNSNames: hosts, IPAddresses: ips,
			KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment, ExtKeyUsage: []x509.ExtKeyUsage{usage}, BasicConstraintsValid: true}
		if ca {
			t.IsCA, t.KeyUsage, t.ExtKeyUsage = true, x509.KeyUsageCertSign, nil
		}
		if parent == nil {
			parent, pkey = t, key
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, key.Public(), pkey)
		if err != nil {
			panic(err)
		}
		kb, err := x509.MarshalPKCS8PrivateKey(key)
		if err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(dir, name+".pem"), append(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})...), 0644)
		c, _ := x509.ParseCertificate(der)
		return c
	}
	ec := func() crypto.Signer { k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader); return k }
	ca := mk("ca", ec(), nil, nil, nil, from, to, true)
	caKey := keys["ca"]
	evil := mk("evilca", ec(), nil, nil, nil, from, to, true)
	evilKey := keys["evilca"]
	hosts := []string{"bank.test", "*.bank.test", "other.test", "vesnc.vanguard.com", "ofx.discovercard.com", "b0.test", "b1.test", "b2.test", "b3.test"}
	good := mk("good", ec(), ca, caKey, hosts, from, to, false)
	r, _ := rsa.GenerateKey(rand.Reader, 2048)
	mk("rsa", r, ca, caKey, hosts, from, to, false)
	mk("untrusted", ec(), evil, evilKey, hosts, from, to, false)
	mk("wronghost", ec(), ca, caKey, []string{"elsewhere.test"}, from, to, false)
	mk("expired", ec(), ca, caKey, hosts, from, time.Date(1999, 6, 1, 0, 0, 0, 0, time.UTC), false)
	mk("notyet", ec(), ca, caKey, hosts, time.Date(2150, 1, 1, 0, 0, 0, 0, time.UTC), to, false)
	self := ec()
	mk("selfsigned", self, nil, nil, hosts, from, to, false)

	// Certificates of the trusted authority for names that resemble the hosts'.
	each := func(f func(string) string) (l []string) {
		for _, h := range hosts[3:] {
			l = append(l, f(h))
		}
		return
	}
	mk("parent", ec(), ca, caKey, append(each(func(h string) string { return h[strings.Index(h, ".")+1:] }), "bank.test"), from, to, false)
	mk("child", ec(), ca, caKey, append(each(func(h string) string { return "www." + h }), "www.sub.bank.test"), from, to, false)
	mk("wild", ec(), ca, caKey, append(each(func(h string) string { return "*." + h }), "*.sub.bank.test"), from, to, false)
	mk("lookalike", ec(), ca, caKey, append(each(func(h string) string { return h + ".evil.test" }), each(func(h string) string { return "x" + h })...), from, to, false)
	// The name is only in the subject.
	mk("b0.test", ec(), ca, caKey, []string{"elsewhere.test"}, from, to, false)
	// Issued by a server that isn't an authority.
	mk("byserver", ec(), good, keys["good"], hosts, from, to, false)
	// Valid until or from the second day of the simulations.
	soon := time.Date(2000, 1, 2, 0, 0, 0, 0, time.UTC)
	mk("lapsing", ec(), ca, caKey, hosts, from, soon, false)
	mk("starting", ec(), ca, caKey, hosts, soon, to, false)
	ips = []net.IP{net.ParseIP("10.0.0.9"), net.ParseIP("2001:db8::9")}
	mk("ip", ec(), ca, caKey, []string{"10.0.0.10", "[2001:db8::10]"}, from, to, false)
	ips = nil
	usage = x509.ExtKeyUsageClientAuth
	mk("clientauth", ec(), ca, caKey, hosts, from, to, false)
}
