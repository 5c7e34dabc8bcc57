package lab

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"
	"time"
)

// LeafKind is a certificate (or precertificate) that a log may contain, and
// where the database has to file it. Computed here from how it was made, not
// by the code under test.
type LeafKind struct {
	Name     string
	Precert  bool
	Cert     []byte // certificate or precertificate
	TBS      []byte // for a precertificate
	IKH      [32]byte
	Chain    [][]byte
	Issuer   string // base64url(SHA-256(SPKI of the issuing authority)); "" if it must not be stored
	Hour     string
	Serial   []byte
	NotAfter time.Time
}

type certPool struct {
	Kinds map[string]*LeafKind
	ByFP  map[[32]byte][]byte // issuer certificates
}

type authority struct {
	key  *ecdsa.PrivateKey
	cert *x509.Certificate
	der  []byte
}

func (a authority) id() string {
	h := sha256.Sum256(a.cert.RawSubjectPublicKeyInfo)
	return base64.URLEncoding.EncodeToString(h[:])
}

var (
	oidCTEKU  = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 4}
	oidPoison = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}
)

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func newKey() *ecdsa.PrivateKey { return must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader)) }

func newAuthority(cn string, key *ecdsa.PrivateKey, parent *authority, pre bool, now time.Time) authority {
	if key == nil {
		key = newKey()
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: cn, Organization: []string{cn}},
		NotBefore: now.Add(-time.Hour * 24 * 100), NotAfter: now.Add(time.Hour * 24 * 3000), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign}
	if pre {
		t.UnknownExtKeyUsage = []asn1.ObjectIdentifier{oidCTEKU}
	}
	p, pk := t, key
	if parent != nil {
		p, pk = parent.cert, parent.key
	}
	der := must(x509.CreateCertificate(rand.Reader, t, p, &key.PublicKey, pk))
	return authority{key: key, cert: must(x509.ParseCertificate(der)), der: der}
}

func derInt(n *big.Int) []byte {
	b := n.Bytes()
	if len(b) == 0 {
		return []byte{0}
	}
	if b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return b
}

// newCertPool makes one certificate of every interesting kind.
func newCertPool() *certPool {
	now := time.Now().UTC()
	p := &certPool{Kinds: map[string]*LeafKind{}, ByFP: map[[32]byte][]byte{}}
	root := newAuthority("Root", nil, nil, false, now)
	ca1 := newAuthority("CA one", nil, &root, false, now)
	ca2 := newAuthority("CA two", nil, &root, false, now)
	ca3 := newAuthority("CA one again", ca1.key, &root, false, now) // the key of CA one under another name
	pre2 := newAuthority("Precert signer of CA two", nil, &ca2, true, now)
	for _, a := range []authority{root, ca1, ca2, ca3, pre2} {
		p.ByFP[sha256.Sum256(a.der)] = a.der
	}
	leafKey := newKey()
	hour := now.Truncate(time.Hour)
	var change func(t *x509.Certificate)
	mk := func(name string, signer, issuer authority, chain []authority, serial *big.Int, notAfter time.Time, precert bool) *LeafKind {
		t := &x509.Certificate{SerialNumber: serial, Subject: pkix.Name{CommonName: name + ".example"}, DNSNames: []string{name + ".example"},
			NotBefore: now.Add(-time.Hour * 24 * 90), NotAfter: notAfter, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, KeyUsage: x509.KeyUsageDigitalSignature}
		if precert {
			t.ExtraExtensions = []pkix.Extension{{Id: oidPoison, Critical: true, Value: []byte{5, 0}}}
		}
		key := leafKey
		if strings.HasPrefix(name, "selfkey") { // certifies the key of its issuer
			key = signer.key
		}
		if change != nil {
			change(t)
		}
		der := must(x509.CreateCertificate(rand.Reader, t, signer.cert, &key.PublicKey, signer.key))
		c := must(x509.ParseCertificate(der))
		k := &LeafKind{Name: name, Precert: precert, Cert: der, TBS: c.RawTBSCertificate, IKH: sha256.Sum256(issuer.cert.RawSubjectPublicKeyInfo),
			Issuer: issuer.id(), Hour: c.NotAfter.UTC().Truncate(time.Hour).Format("2006-01-02-15"), Serial: derInt(serial), NotAfter: c.NotAfter}
		for _, a := range chain {
			k.Chain = append(k.Chain, a.der)
		}
		p.Kinds[name] = k
		return k
	}
	far := hour.Add(60*24*time.Hour + 17*time.Minute + 5*time.Second)
	sn := func(b ...byte) *big.Int { return new(big.Int).SetBytes(b) }
	for i := 0; i < 6; i++ { // ordinary certificates of two authorities
		a, n := ca1, "a"
		if i%2 == 1 {
			a, n = ca2, "b"
		}
		mk(fmt.Sprintf("%s%d", n, i), a, a, []authority{a, root}, sn(0x10+byte(i), byte(7*i+1)), far.Add(time.Duration(i)*time.Hour*24), i%3 == 2)
	}
	mk("pre", ca1, ca1, []authority{ca1, root}, sn(0x21, 1), far, true)
	mk("presig", pre2, ca2, []authority{pre2, ca2, root}, sn(0x22, 2), far, true)   // through a precertificate signing certificate
	mk("presigx", pre2, ca2, []authority{pre2, ca2, root}, sn(0x23, 2), far, false) // ... but not marked as a precertificate
	mk("samekey", ca3, ca3, []authority{ca3, root}, sn(0x24, 9), far, false)        // another certificate of the same key
	mk("short", ca1, ca1, []authority{ca1}, sn(0x25, 3), far, false)                // chain of one
	mk("hibit", ca1, ca1, []authority{ca1, root}, sn(0x80, 0, 0x80), far, false)    // leading zero octet
	mk("one", ca2, ca2, []authority{ca2, root}, sn(1), far, false)                  // one octet
	mk("long", ca2, ca2, []authority{ca2, root}, sn(bytes.Repeat([]byte{0x7f, 0xee}, 10)...), far, true)
	mk("nulls", ca1, ca1, []authority{ca1, root}, sn(0x26, 0, 0, 10, 13, 0), far, false)
	mk("h59", ca1, ca1, []authority{ca1, root}, sn(0x27, 1), far.Truncate(time.Hour).Add(time.Hour-time.Second), false)
	mk("h00", ca1, ca1, []authority{ca1, root}, sn(0x27, 2), far.Truncate(time.Hour), false)
	mk("midnight", ca2, ca2, []authority{ca2, root}, sn(0x27, 3), far.Truncate(24*time.Hour), true)
	mk("h23", ca2, ca2, []authority{ca2, root}, sn(0x27, 4), far.Truncate(24*time.Hour).Add(24*time.Hour-time.Second), false)
	mk("farpast2050", ca1, ca1, []authority{ca1, root}, sn(0x27, 5), time.Date(2055, 3, 4, 5, 6, 7, 0, time.UTC), false)
	mk("soon", ca1, ca1, []authority{ca1, root}, sn(0x28, 1), hour.Add(25*time.Hour), false)
	odd := func(name string, a authority, chain []authority, pre bool, f func(t *x509.Certificate)) {
		change = f
		mk(name, a, a, chain, sn(0x2a, byte(len(p.Kinds))), far, pre)
		change = nil
	}
	odd("selfkey1", ca1, []authority{ca1}, false, nil)
	odd("selfkey2", ca2, []authority{ca2, root}, true, nil)
	odd("selfname", ca1, []authority{ca1}, false, func(t *x509.Certificate) { t.Subject = ca1.cert.Subject; t.SubjectKeyId = []byte{1} })
	odd("selfkeyname", ca1, []authority{ca1}, false, func(t *x509.Certificate) { t.Subject = ca1.cert.Subject })
	odd("isca", root, []authority{root}, false, func(t *x509.Certificate) {
		t.IsCA, t.BasicConstraintsValid, t.KeyUsage, t.ExtKeyUsage = true, true, x509.KeyUsageCertSign, nil
	})
	odd("noeku", ca2, []authority{ca2, root}, false, func(t *x509.Certificate) { t.ExtKeyUsage, t.DNSNames = nil, nil })
	odd("othereku", ca2, []authority{ca2, root}, true, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageEmailProtection} })
	odd("nosubject", ca1, []authority{ca1, root}, false, func(t *x509.Certificate) { t.Subject = pkix.Name{} })
	odd("notyet", ca1, []authority{ca1, root}, true, func(t *x509.Certificate) { t.NotBefore = now.Add(24 * time.Hour) })
	odd("shortlived", ca1, []authority{ca1, root}, false, func(t *x509.Certificate) { t.NotBefore, t.NotAfter = now.Add(-time.Hour), hour.Add(26*time.Hour) })
	odd("longchain", ca1, []authority{ca1, root, root, ca2}, false, nil)
	no := func(k *LeafKind) { k.Issuer = "" }
	no(mk("exp", ca1, ca1, []authority{ca1, root}, sn(0x30, 1), now.Add(-2*time.Minute), false))
	no(mk("exppre", ca2, ca2, []authority{ca2, root}, sn(0x30, 2), now.Add(-26*time.Hour), true))
	no(mk("expold", ca2, ca2, []authority{ca2, root}, sn(0x30, 3), now.Add(-80*24*time.Hour), false))
	rk := &LeafKind{Name: "root", Cert: root.der, Hour: "-"}
	p.Kinds["root"] = rk
	// serial numbers no issuer should use, which exist nevertheless: patched into the encoding
	patch := func(name string, serial []byte) {
		k := mk(name, ca1, ca1, []authority{ca1, root}, sn(bytes.Repeat([]byte{0x5a}, len(serial))...), far, false)
		i := bytes.Index(k.Cert, bytes.Repeat([]byte{0x5a}, len(serial)))
		copy(k.Cert[i:], serial)
		k.Serial = serial
	}
	patch("neg", []byte{0x80, 1, 2, 3, 4, 5, 6, 7})
	patch("zero", []byte{0, 0, 0, 0, 0, 0, 0, 0})
	patch("nonmin", []byte{0, 1, 2, 3, 4, 5, 6, 7})
	// expiry written with a zone offset: same length as a GeneralizedTime
	zone := func(name, enc string, notAfter time.Time) {
		k := mk(name, ca2, ca2, []authority{ca2, root}, sn(0x29, byte(len(name)), byte(name[1])), time.Date(2055, 3, 4, 5, 6, 7, 0, time.UTC), false)
		old := append([]byte{0x18, 15}, "20550304050607Z"...)
		k.Cert = bytes.Replace(k.Cert, old, append([]byte{0x17, 15}, enc...), 1)
		k.Hour, k.NotAfter = notAfter.UTC().Truncate(time.Hour).Format("2006-01-02-15"), notAfter
	}
	for _, z := range []struct {
		n   string
		off int
	}{{"zeast", 5*3600 + 1800}, {"zwest", -7 * 3600}} {
		t := far.Truncate(time.Minute).In(time.FixedZone("z", z.off))
		zone(z.n, t.Format("0601021504-0700"), t)
	}
	return p
}

var thePool *certPool
