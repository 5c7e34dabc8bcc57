package lab

import (
	"bytes"
	"compress/gzip"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/csv"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- scenario ---------------------------------------------------------

type CScenario struct {
	ID       string      `json:"id"`
	Threads  int         `json:"threads"`
	Issuers  []*CIssuer  `json:"issuers"`
	Contents []*CContent `json:"contents"`
	Steps    []*CStep    `json:"steps"`
}

type CIssuer struct {
	ID   string   `json:"id"`             // a, b, c (ECDSA), r (RSA)
	Full string   `json:"full,omitempty"` // URL of the full CRL
	Part []string `json:"part,omitempty"` // URLs of partitioned CRLs
}

type CContent struct {
	ID    string   `json:"id"`
	By    string   `json:"by"`             // who signs: an issuer, or x (nobody known)
	Name  string   `json:"name,omitempty"` // whose name it bears; default By
	Ents  []CEnt   `json:"ents,omitempty"`
	Gen   int      `json:"gen,omitempty"` // further entries
	Alter string   `json:"alter,omitempty"`
	DP    []string `json:"dp,omitempty"`
	Flags []string `json:"flags,omitempty"` // expired, nonext, v1, future, old
}

type CEnt struct {
	S string `json:"s"`
	R int    `json:"r"` // -1: no reason
	X string `json:"x,omitempty"`
}

type CStep struct {
	Op   string              `json:"op"` // run, spoil
	Ans  map[string][]string `json:"ans,omitempty"`
	Head map[string]string   `json:"head,omitempty"`
	At   []*FTrig            `json:"at,omitempty"` // c: req, mid
	FS   *CFault             `json:"fs,omitempty"`
	U    string              `json:"u,omitempty"`
	I    string              `json:"i,omitempty"`
	How  string              `json:"how,omitempty"`
}

type CFault struct {
	Ops   string `json:"ops"`
	Match string `json:"match"`
	N     string `json:"n"`
	Act   string `json:"act"`
}

// ---- authorities -------------------------------------------------------

type signer struct {
	key crypto.Signer
	der []byte
	crt *x509.Certificate
}

func (s *signer) id() string {
	h := sha256.Sum256(s.crt.RawSubjectPublicKeyInfo)
	return base64.URLEncoding.EncodeToString(h[:])
}

type crlPool struct {
	root *signer
	by   map[string]*signer
	tls  *signer // signs the certificates of https servers
	mu   sync.Mutex
	host map[string]*tls.Certificate
}

var theCrlPool *crlPool

func getCrlPool() *crlPool {
	poolMu.Lock()
	defer poolMu.Unlock()
	if theCrlPool == nil {
		p := &crlPool{by: map[string]*signer{}, host: map[string]*tls.Certificate{}}
		p.root = newSigner("Root", nil, nil)
		for _, n := range []string{"a", "b", "c", "d", "x"} {
			p.by[n] = newSigner("Authority "+n, nil, p.root)
		}
		p.by["r"] = newSigner("Authority r", must(rsa.GenerateKey(rand.Reader, 2048)), p.root)
		p.tls = newSigner("Web", nil, nil)
		theCrlPool = p
	}
	return theCrlPool
}

var serialNo int64

func newSigner(cn string, key crypto.Signer, parent *signer) *signer {
	if key == nil {
		key = must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	}
	serialNo++
	t := &x509.Certificate{SerialNumber: big.NewInt(1000 + serialNo), Subject: pkix.Name{CommonName: cn, Organization: []string{"Test " + cn}},
		NotBefore: time.Now().Add(-100 * 24 * time.Hour), NotAfter: time.Now().Add(3000 * 24 * time.Hour), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign}
	p, pk := t, key
	if parent != nil {
		p, pk = parent.crt, parent.key
	}
	der := must(x509.CreateCertificate(rand.Reader, t, p, key.Public(), pk))
	return &signer{key: key, der: der, crt: must(x509.ParseCertificate(der))}
}

func (p *crlPool) serverCert(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if c := p.host[h.ServerName]; c != nil {
		return c, nil
	}
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: h.ServerName}, DNSNames: []string{h.ServerName},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour)}
	der := must(x509.CreateCertificate(rand.Reader, t, p.tls.crt, k.Public(), p.tls.key))
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
	p.host[h.ServerName] = c
	return c, nil
}

// ---- DER ---------------------------------------------------------------

func tlv(tag byte, parts ...[]byte) []byte {
	b := bytes.Join(parts, nil)
	var l []byte
	switch n := len(b); {
	case n < 128:
		l = []byte{byte(n)}
	case n < 256:
		l = []byte{0x81, byte(n)}
	case n < 65536:
		l = []byte{0x82, byte(n >> 8), byte(n)}
	default:
		l = []byte{0x83, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	return append(append([]byte{tag}, l...), b...)
}

func oid(o ...int) []byte { return must(asn1.Marshal(asn1.ObjectIdentifier(o))) }

func derTime(t time.Time) []byte {
	t = t.UTC()
	if t.Year() >= 2050 {
		return tlv(0x18, []byte(t.Format("20060102150405Z")))
	}
	return tlv(0x17, []byte(t.Format("060102150405Z")))
}

func reasonExt(crit bool, v []byte) []byte {
	b := [][]byte{oid(2, 5, 29, 21)}
	if crit {
		b = append(b, tlv(1, []byte{0xff}))
	}
	return tlv(0x30, append(b, tlv(4, v))...)
}

type crlContent struct {
	spec  *CContent
	bytes []byte
	valid []string
	proc  bool
	dpk   bool
	ent   []string
}

func hasFlag(s []string, f string) bool {
	for _, x := range s {
		if x == f {
			return true
		}
	}
	return false
}

func (p *crlPool) build(c *CContent) (*crlContent, error) {
	r := &crlContent{spec: c, proc: true, dpk: true}
	sg := p.by[c.By]
	name := sg
	if c.Name != "" {
		name = p.by[c.Name]
	}
	if sg == nil || name == nil {
		return nil, fmt.Errorf("content %s: unknown signer", c.ID)
	}
	switch c.Alter {
	case "html":
		r.bytes = []byte("<!DOCTYPE html><html><head><title>" + c.ID + " Not found</title></head><body>Try again later</body></html>\n")
	case "empty":
		r.bytes = []byte{}
	case "cert":
		r.bytes = sg.der
	case "text":
		r.bytes = []byte(c.ID + "\n")
	}
	if r.bytes != nil {
		r.dpk = true
		return r, nil
	}
	alg := tlv(0x30, oid(1, 2, 840, 10045, 4, 3, 2))
	if _, ok := sg.key.(*rsa.PrivateKey); ok {
		alg = tlv(0x30, oid(1, 2, 840, 113549, 1, 1, 11), []byte{5, 0})
	}
	now := time.Now()
	this, next := now.Add(-time.Hour), now.Add(7*24*time.Hour)
	if hasFlag(c.Flags, "expired") {
		this, next = now.Add(-9*24*time.Hour), now.Add(-2*24*time.Hour)
	}
	if hasFlag(c.Flags, "old") {
		this = now.Add(-300 * 24 * time.Hour)
	}
	if hasFlag(c.Flags, "future") {
		this = now.Add(24 * time.Hour)
	}
	v1 := hasFlag(c.Flags, "v1")
	seen := map[string]bool{}
	var revs [][]byte
	add := func(e CEnt) error {
		s, err := hex.DecodeString(e.S)
		if err != nil {
			return err
		}
		var exts [][]byte
		enum := func(v int) []byte {
			b := must(asn1.Marshal(asn1.Enumerated(v)))
			return b
		}
		if e.X == "other" { // invalidity date first
			exts = append(exts, tlv(0x30, oid(2, 5, 29, 24), tlv(4, tlv(0x18, []byte("20240101000000Z")))))
		}
		rc := e.R
		if e.R >= 0 {
			exts = append(exts, reasonExt(e.X == "crit", enum(e.R)))
		} else {
			rc = 0
		}
		switch e.X {
		case "dup":
			exts = append(exts, reasonExt(false, enum(max(rc, 1))))
			if e.R < 0 {
				exts = append(exts, reasonExt(false, enum(1)))
			}
			r.proc, r.dpk = false, false
		case "big":
			exts = append(exts, reasonExt(false, enum(256)))
			r.proc, r.dpk = false, false
		case "neg":
			exts = append(exts, reasonExt(false, enum(-1)))
			r.proc, r.dpk = false, false
		case "bad":
			exts = append(exts, reasonExt(false, tlv(4, []byte("x"))))
			r.proc, r.dpk = false, false
		case "after":
			exts = append(exts, tlv(0x30, oid(2, 5, 29, 24), tlv(4, tlv(0x18, []byte("20240101000000Z")))))
		}
		parts := [][]byte{tlv(2, s), derTime(now.Add(-48 * time.Hour))}
		if len(exts) > 0 {
			parts = append(parts, tlv(0x30, exts...))
		}
		revs = append(revs, tlv(0x30, parts...))
		k := fmt.Sprintf("%02x%x", rc, s)
		if !seen[k] {
			seen[k] = true
			r.ent = append(r.ent, k)
		}
		return nil
	}
	for _, e := range c.Ents {
		if err := add(e); err != nil {
			return nil, err
		}
	}
	h := sha256.Sum256([]byte(c.ID))
	for i := 0; i < c.Gen; i++ {
		b := append([]byte{0x10 + byte(i%96)}, h[:9]...)
		b = append(b, byte(i>>8), byte(i))
		if err := add(CEnt{S: hex.EncodeToString(b), R: []int{-1, 1, 4, 5, 9}[i%5]}); err != nil {
			return nil, err
		}
	}
	var parts [][]byte
	if !v1 {
		parts = append(parts, []byte{2, 1, 1})
	}
	parts = append(parts, alg, name.crt.RawSubject, derTime(this))
	if !hasFlag(c.Flags, "nonext") {
		parts = append(parts, derTime(next))
	}
	if len(revs) > 0 {
		parts = append(parts, tlv(0x30, revs...))
	}
	if !v1 {
		exts := [][]byte{tlv(0x30, oid(2, 5, 29, 20), tlv(4, tlv(2, []byte{0x11}, h[:6])))}
		if len(c.DP) > 0 {
			var us [][]byte
			for _, u := range c.DP {
				us = append(us, tlv(0x86, []byte(u)))
			}
			exts = append(exts, tlv(0x30, oid(2, 5, 29, 28), tlv(1, []byte{0xff}), tlv(4, tlv(0x30, tlv(0xa0, tlv(0xa0, us...))))))
		}
		parts = append(parts, tlv(0xa0, tlv(0x30, exts...)))
	}
	tbs := tlv(0x30, parts...)
	d := sha256.Sum256(tbs)
	sig := must(sg.key.Sign(rand.Reader, d[:], crypto.SHA256))
	r.valid = []string{c.By}
	if c.Alter != "" && c.Alter != "pem" {
		r.valid = nil
	}
	f := strings.Split(c.Alter, ":")
	num := func() int { n, _ := strconv.Atoi(f[len(f)-1]); return n }
	if f[0] == "flip" { // in the signed part
		tbs = append([]byte{}, tbs...)
		tbs[6+(len(tbs)-7)*num()/100] ^= 1
	}
	if f[0] == "sig" {
		sig = append([]byte{}, sig...)
		sig[len(sig)-3] ^= 4
	}
	if f[0] == "swap" { // another list under this signature
		tbs2 := append([]byte{}, tbs...)
		d := sha256.Sum256(append(tbs2, 1))
		sig = must(sg.key.Sign(rand.Reader, d[:], crypto.SHA256))
	}
	if f[0] == "nosig" {
		sig = []byte{0x30, 6, 2, 1, 0, 2, 1, 0}
	}
	r.bytes = tlv(0x30, tbs, alg, tlv(3, []byte{0}, sig))
	if f[0] == "trunc" {
		r.bytes = r.bytes[:len(r.bytes)*num()/100]
	}
	if f[0] == "pem" {
		r.bytes = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: r.bytes})
	}
	return r, nil
}

// ---- runner -----------------------------------------------------------

type Crl struct {
	blocked bool // a folder is where a copy belongs
	Sc      *CScenario
	Work    string
	Bindir  string
	Events  []Event
	Classes map[string]int
	Fired   int
	Kills   int
	Cmds    int
	Err     error

	pool   *crlPool
	cont   map[string]*crlContent
	byHash map[[32]byte]string
	urls   map[string]string // canonical form -> URL as disclosed
	ids    map[string]string // issuer ID -> name
	mu     sync.Mutex
	proc   *Proc
	step   *CStep
	cnt    map[string]int
	asked  map[string]int
	cut    map[string]int // bytes sent of an incomplete answer
	killed bool
	sig    bool
	ptr    bool
	last   string
	over   bool
	flight int
	srv    *http.Server
	host   string
	nrun   int
	kept   map[string]string // issuer NUL url -> content thought to be kept
}

func NewCrl(sc *CScenario, work, bin string) *Crl {
	return &Crl{Sc: sc, Work: work, Bindir: bin, Classes: map[string]int{}, cont: map[string]*crlContent{}, byHash: map[[32]byte]string{}, urls: map[string]string{}, ids: map[string]string{}, kept: map[string]string{}}
}

func (c *Crl) emit(e Event) { c.Events = append(c.Events, e) }

func canonURL(s string) string {
	u, err := url.Parse(s)
	if err != nil {
		return s
	}
	u.Fragment = ""
	if u.Path == "" {
		u.Path = "/"
	}
	return u.String()
}

func (i *CIssuer) all() []string {
	var r []string
	if i.Full != "" {
		r = append(r, i.Full)
	}
	for _, u := range i.Part {
		if u != i.Full {
			r = append(r, u)
		}
	}
	return r
}

func (c *Crl) Run() {
	defer func() {
		if r := recover(); r != nil {
			c.Err = fmt.Errorf("panic: %v", r)
		}
		if c.proc != nil && !c.proc.Exited() {
			c.proc.Kill()
			c.proc.Wait(5 * time.Second)
		}
		if c.srv != nil {
			c.srv.Close()
		}
	}()
	c.Err = c.run()
}

func (c *Crl) run() error {
	c.pool = getCrlPool()
	for _, d := range []string{"tmp", "crls"} {
		os.MkdirAll(filepath.Join(c.Work, d), 0755)
	}
	iss := []Event{}
	for _, i := range c.Sc.Issuers {
		c.ids[c.pool.by[i.ID].id()] = i.ID
		for _, u := range i.all() {
			c.urls[canonURL(u)] = u
		}
		iss = append(iss, Event{"id": i.ID, "urls": strs(i.all()), "part": len(i.Part) > 0})
	}
	if err := c.csv(); err != nil {
		return err
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	c.host = ln.Addr().String()
	c.srv = &http.Server{Handler: http.HandlerFunc(c.http)}
	go c.srv.Serve(ln)
	os.WriteFile(filepath.Join(c.Work, "ca.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.pool.tls.der}), 0644)
	c.emit(Event{"ev": "Reset", "id": c.Sc.ID, "issuers": iss})
	for _, s := range c.Sc.Contents {
		b, err := c.pool.build(s)
		if err != nil {
			return err
		}
		c.cont[s.ID] = b
		h := sha256.Sum256(b.bytes)
		if _, dup := c.byHash[h]; dup && len(b.bytes) > 0 {
			return fmt.Errorf("content %s is not distinct", s.ID)
		}
		c.byHash[h] = s.ID
		v := []string{}
		for _, x := range b.valid {
			for _, i := range c.Sc.Issuers {
				if i.ID == x {
					v = append(v, x)
				}
			}
		}
		c.emit(Event{"ev": "Content", "c": s.ID, "valid": v, "proc": b.proc, "ent": strs(b.ent), "dp": strs(s.DP), "dpk": b.dpk})
	}
	for _, s := range c.Sc.Steps {
		var err error
		switch s.Op {
		case "run":
			err = c.aggregate(s)
		case "spoil":
			err = c.spoil(s)
		default:
			err = fmt.Errorf("unknown step %s", s.Op)
		}
		if err != nil {
			return err
		}
	}
	c.emit(Event{"ev": "Finish"})
	return nil
}

func (c *Crl) csv() error {
	f, err := os.Create(filepath.Join(c.Work, "ccadb.csv"))
	if err != nil {
		return err
	}
	defer f.Close()
	w := csv.NewWriter(f)
	row := func(der []byte, typ, full string, part []string) {
		j := ""
		if len(part) > 0 {
			b, _ := json.MarshalIndent(part, "", " ")
			var raw bytes.Buffer
			enc := json.NewEncoder(&raw)
			enc.SetEscapeHTML(false)
			enc.Encode(part)
			b = bytes.TrimSpace(raw.Bytes())
			j = string(b)
		}
		w.Write([]string{fmt.Sprintf("%X", sha256.Sum256(der)), string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})), typ, "Not Revoked", full, j})
	}
	w.Write([]string{"SHA_256_Fingerprint", "X.509_Certificate_PEM", "RecordType.Name", "Revocation_Status__c", "Full_CRL_Issued_By_This_CA", "JSON_Array_of_Partitioned_CRLs"})
	row(c.pool.root.der, "Root Certificate", "", nil)
	for _, i := range c.Sc.Issuers {
		row(c.pool.by[i.ID].der, "Intermediate Certificate", i.Full, i.Part)
	}
	w.Flush()
	return w.Error()
}

func (c *Crl) runDir() string { return filepath.Join(c.Work, fmt.Sprintf("run%d", c.nrun)) }

func ignorable(name string) bool {
	return strings.HasPrefix(name, ".") || strings.Contains(name, "tmp")
}

// copies: what is kept, by content. Called with mu held.
func (c *Crl) copies(spoiled bool) {
	d := []Event{}
	for _, i := range c.Sc.Issuers {
		fs := []string{}
		dir := filepath.Join(c.Work, "crls", c.pool.by[i.ID].id())
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			if ignorable(e.Name()) || e.IsDir() {
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, e.Name()))
			if err != nil {
				continue
			}
			id, ok := c.byHash[sha256.Sum256(b)]
			if !ok {
				id = "?"
			}
			fs = append(fs, id)
		}
		sort.Strings(fs)
		d = append(d, Event{"id": i.ID, "files": fs})
	}
	k := string(must(json.Marshal(d)))
	if k == c.last && !spoiled {
		return
	}
	c.last = k
	c.emit(Event{"ev": "Copies", "d": d, "spoiled": spoiled})
}

func (c *Crl) spoil(s *CStep) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	want := c.kept[s.I+"\x00"+s.U]
	dir := filepath.Join(c.Work, "crls", c.pool.by[s.I].id())
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		p := filepath.Join(dir, e.Name())
		b, err := os.ReadFile(p)
		if err != nil || ignorable(e.Name()) || c.byHash[sha256.Sum256(b)] != want || want == "" {
			continue
		}
		c.Fired++
		f := strings.SplitN(s.How, ":", 2)
		switch f[0] {
		case "remove":
			err = os.Remove(p)
		case "garbage":
			err = os.WriteFile(p, []byte("garbage"), 0644)
		case "empty":
			err = os.WriteFile(p, nil, 0644)
		case "trunc":
			err = os.WriteFile(p, b[:len(b)/2], 0644)
		case "append":
			err = os.WriteFile(p, append(b, 0), 0644)
		case "flip":
			b[len(b)/3] ^= 1
			err = os.WriteFile(p, b, 0644)
		case "foreign":
			err = os.WriteFile(p, c.cont[f[1]].bytes, 0644)
		case "dir":
			os.Remove(p)
			err = os.Mkdir(p, 0755)
			c.blocked = true
		case "aged": // usable as before
			t := time.Now().Add(-400 * 24 * time.Hour)
			return os.Chtimes(p, t, t)
		}
		if err != nil {
			return err
		}
		c.emit(Event{"ev": "Spoil", "i": s.I, "u": s.U})
		c.copies(true)
		return nil
	}
	return nil
}

func (c *Crl) aggregate(s *CStep) error {
	c.mu.Lock()
	c.nrun++
	c.step, c.cnt, c.asked, c.cut = s, map[string]int{}, map[string]int{}, map[string]int{}
	c.killed, c.sig, c.over = false, false, false
	d := c.runDir()
	os.MkdirAll(d, 0755)
	now := time.Now()
	os.Chtimes(filepath.Join(c.Work, "ccadb.csv"), now, now)
	c.emit(Event{"ev": "Begin"})
	argv := []string{c.Bindir + "/aggregate-crls", "-logtostderr", "-ccadb", filepath.Join(c.Work, "ccadb.csv"), "-crlpath", filepath.Join(c.Work, "crls"),
		"-revokedpath", d + "/revoked", "-enrolledpath", d + "/enrolled.json", "-auditpath", d + "/audit.json"}
	ptrLog := d + "/ptr.log"
	c.ptr = s.FS != nil
	if c.ptr {
		argv = append([]string{c.Bindir + "/ptr", "-l", ptrLog, "-m", s.FS.Match, "-o", s.FS.Ops, "-n", s.FS.N, "-a", s.FS.Act, "--"}, argv...)
	}
	th := c.Sc.Threads
	if th == 0 {
		th = 2
	}
	env := BaseEnv(filepath.Join(c.Work, "tmp"), "numThreads="+strconv.Itoa(th), "http_proxy=http://"+c.host, "https_proxy=http://"+c.host, "SSL_CERT_FILE="+filepath.Join(c.Work, "ca.pem"))
	p, err := StartProc(argv, env, c.Work, d+"/log")
	c.proc = p
	c.mu.Unlock()
	if err != nil {
		return err
	}
	ok := p.Wait(60 * time.Second)
	c.mu.Lock()
	c.over = true
	c.mu.Unlock()
	for i := 0; i < 2000; i++ {
		c.mu.Lock()
		n := c.flight
		c.mu.Unlock()
		if n == 0 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	fault := c.blocked
	if c.ptr {
		b, _ := os.ReadFile(ptrLog)
		for _, ln := range strings.Split(string(b), "\n") {
			f := strings.Fields(ln)
			if len(f) > 0 && f[0] == "KILLED" && strings.HasPrefix(s.FS.Act, "kill") {
				c.killed = true
				c.Kills++
			}
			if strings.Contains(ln, " INJECTED ") {
				c.Fired++
				switch {
				case strings.HasPrefix(s.FS.Act, "E"):
					fault = true
				case s.FS.Act == "term":
					c.sig = true
				}
			}
			if len(f) > 1 {
				if n, err := strconv.Atoi(f[0]); err == nil {
					c.Cmds = max(c.Cmds, n)
				}
			}
		}
	}
	c.copies(false)
	c.Classes["runs"]++
	ls := []Event{}
	for _, i := range c.Sc.Issuers {
		ls = append(ls, listFile(filepath.Join(d, "revoked", c.pool.by[i.ID].id()), i.ID))
	}
	c.emit(Event{"ev": "Lists", "l": ls})
	has, au := c.audit(d + "/audit.json")
	c.emit(Event{"ev": "End", "code": p.Code, "killed": c.killed, "sig": c.sig, "fault": fault, "hang": !ok && !c.killed, "hasaudit": has, "audit": au})
	for _, i := range c.Sc.Issuers {
		for _, u := range i.all() {
			if a := s.Ans[u]; len(a) > 0 && c.asked[u] > 0 {
				f := strings.Split(a[min(len(a), c.asked[u])-1], ":")
				if len(f) > 1 && c.cont[f[1]] != nil && hasFlag(c.cont[f[1]].valid, i.ID) {
					c.kept[i.ID+"\x00"+u] = f[1]
				}
			}
		}
	}
	return nil
}

func listFile(p, id string) Event {
	b, err := os.ReadFile(p)
	ents, junk := []string{}, false
	if err == nil {
		seen := map[string]bool{}
		ls := strings.Split(string(b), "\n")
		for n, l := range ls {
			if n == len(ls)-1 && l == "" {
				break
			}
			l = strings.ToLower(strings.TrimSpace(l))
			if _, err := hex.DecodeString(l); err != nil || len(l) < 2 || n == len(ls)-1 {
				junk = true
				continue
			}
			if !seen[l] {
				seen[l] = true
				ents = append(ents, l)
			}
		}
	}
	return Event{"id": id, "has": err == nil, "ent": ents, "junk": junk}
}

func (c *Crl) audit(p string) (bool, []Event) {
	r := []Event{}
	b, err := os.ReadFile(p)
	if err != nil {
		return false, r
	}
	var a struct {
		Entries []struct{ Url, Issuer, Kind string }
	}
	if json.Unmarshal(b, &a) != nil {
		return false, r
	}
	for _, e := range a.Entries {
		u, ok := c.urls[canonURL(e.Url)]
		if !ok {
			u = "?" + e.Url
		}
		i, ok := c.ids[e.Issuer]
		if !ok {
			i = "?" + e.Issuer
		}
		r = append(r, Event{"i": i, "u": u, "k": e.Kind})
	}
	return true, r
}

// trigger acts on the process. Called with mu held; reports whether it is gone.
func (c *Crl) trigger(class string) {
	c.cnt[class]++
	for _, t := range c.step.At {
		if t.C != class || t.N != c.cnt[class] || c.ptr {
			continue
		}
		c.Fired++
		switch t.Act {
		case "kill":
			c.killed = true
			c.Kills++
			c.proc.Kill()
			c.proc.Wait(5 * time.Second)
		case "term", "int":
			c.sig = true
			s := syscall.SIGTERM
			if t.Act == "int" {
				s = syscall.SIGINT
			}
			c.proc.Signal(s)
			time.Sleep(60 * time.Millisecond)
		}
	}
}

func (c *Crl) http(w http.ResponseWriter, r *http.Request) {
	c.mu.Lock()
	c.flight++
	c.mu.Unlock()
	defer func() {
		c.mu.Lock()
		c.flight--
		c.mu.Unlock()
	}()
	if r.Method == http.MethodConnect {
		h, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		fmt.Fprint(h, "HTTP/1.1 200 OK\r\n\r\n")
		t := tls.Server(h, &tls.Config{GetCertificate: c.pool.serverCert})
		if t.Handshake() != nil {
			t.Close()
			return
		}
		target := strings.TrimSuffix(r.Host, ":443")
		done := make(chan bool, 1)
		go func() {
			s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				q.URL.Scheme, q.URL.Host = "https", target
				c.serve(w, q)
			}), ConnState: func(_ net.Conn, st http.ConnState) {
				if st == http.StateClosed || st == http.StateHijacked {
					select {
					case done <- true:
					default:
					}
				}
			}}
			s.Serve(&oneConn{c: t, ch: make(chan bool)})
		}()
		return
	}
	c.serve(w, r)
}

type oneConn struct {
	c    net.Conn
	ch   chan bool
	used bool
}

func (o *oneConn) Accept() (net.Conn, error) {
	if !o.used {
		o.used = true
		return o.c, nil
	}
	<-o.ch
	return nil, net.ErrClosed
}
func (o *oneConn) Close() error   { return nil }
func (o *oneConn) Addr() net.Addr { return o.c.LocalAddr() }

func (c *Crl) serve(w http.ResponseWriter, r *http.Request) {
	c.mu.Lock()
	c.flight++
	defer func() {
		c.mu.Lock()
		c.flight--
		c.mu.Unlock()
	}()
	r.URL.Fragment = ""
	key := r.URL.String()
	if strings.HasPrefix(r.URL.Path, "/-redirected/") {
		b, _ := hex.DecodeString(strings.TrimPrefix(r.URL.Path, "/-redirected/"))
		key = string(b)
	}
	u, ok := c.urls[canonURL(key)]
	if !ok || c.over || c.step == nil {
		c.mu.Unlock()
		http.Error(w, "no such CRL", 404)
		return
	}
	c.copies(false)
	hs := c.step.Head[u]
	if r.Method == http.MethodHead {
		f := strings.Split(hs, ":")
		n := 0
		if len(f) > 1 && c.cont[f[1]] != nil {
			n = len(c.cont[f[1]].bytes)
		}
		sent := c.cut[u]
		c.Classes["head"]++
		c.mu.Unlock()
		switch f[0] {
		case "resume":
			w.Header().Set("Accept-Ranges", "bytes")
			w.Header().Set("Last-Modified", time.Now().Add(-48*time.Hour).UTC().Format(http.TimeFormat))
			w.Header().Set("Content-Length", strconv.Itoa(n))
		case "same": // claims to be as long as what was sent
			w.Header().Set("Last-Modified", time.Now().Add(-48*time.Hour).UTC().Format(http.TimeFormat))
			w.Header().Set("Content-Length", strconv.Itoa(sent))
		case "404":
			w.WriteHeader(404)
		}
		return
	}
	redirected := key != r.URL.String()
	as := c.step.Ans[u]
	if len(as) == 0 {
		as = []string{"status:404"}
	}
	n := c.asked[u]
	a := as[min(n, len(as)-1)]
	f := strings.Split(a, ":")
	if f[0] == "redir" && !redirected {
		c.mu.Unlock()
		w.Header().Set("Location", "http://elsewhere.test/-redirected/"+hex.EncodeToString([]byte(key)))
		w.WriteHeader(302)
		return
	}
	c.asked[u]++
	c.trigger("req")
	c.Classes["answer:"+f[0]]++
	var body []byte
	id := ""
	if len(f) > 1 && c.cont[f[1]] != nil {
		id = f[1]
		body = c.cont[id].bytes
	}
	pct := 50
	if len(f) > 2 {
		pct, _ = strconv.Atoi(f[2])
	}
	half := len(body) * pct / 100
	if f[0] == "resume" {
		half = min(c.cut[u], len(body))
	}
	ans := func(ok bool, any bool) { c.emit(Event{"ev": "Answer", "u": u, "ok": ok, "c": id, "any": any}) }
	reset := func() {
		h, _, err := http.NewResponseController(w).Hijack()
		if err == nil {
			if t, ok := h.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			h.Close()
		}
	}
	flush := func() { http.NewResponseController(w).Flush() }
	mid := func() bool { // pauses in the middle of an answer
		time.Sleep(15 * time.Millisecond)
		c.mu.Lock()
		c.copies(false)
		c.trigger("mid")
		c.mu.Unlock()
		return true
	}
	if c.proc.Exited() {
		c.mu.Unlock()
		return
	}
	switch f[0] {
	case "ok", "lm", "redir", "chunk", "gzip", "ctype":
		ans(true, true)
		c.mu.Unlock()
		switch f[0] {
		case "lm":
			w.Header().Set("Last-Modified", time.Now().Add(-30*24*time.Hour).UTC().Format(http.TimeFormat))
			w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		case "gzip":
			w.Header().Set("Content-Encoding", "gzip")
			z := gzip.NewWriter(w)
			z.Write(body)
			z.Close()
			return
		case "chunk":
			w.Write(body[:half])
			flush()
			w.Write(body[half:])
			return
		case "ctype":
			w.Header().Set("Content-Type", "text/html")
		default:
			w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		}
		w.Write(body)
	case "slow":
		c.mu.Unlock()
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		w.Write(body[:half])
		flush()
		mid()
		c.mu.Lock()
		ans(!c.killed, true)
		c.mu.Unlock()
		w.Write(body[half:])
	case "cut", "cutchunk", "badlen":
		c.cut[u] = half
		ans(false, half > 0 || len(body) == 0)
		c.mu.Unlock()
		if f[0] == "badlen" {
			half = len(body)
		}
		if f[0] != "cutchunk" {
			w.Header().Set("Content-Length", strconv.Itoa(len(body)+map[bool]int{true: 9, false: 0}[f[0] == "badlen"]))
		}
		w.Write(body[:half])
		flush()
		mid()
		h, _, err := http.NewResponseController(w).Hijack()
		if err == nil {
			h.Close()
		}
	case "hang":
		ans(false, true)
		c.mu.Unlock()
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		w.Write(body[:half])
		flush()
		mid()
		for i := 0; i < 3000 && !c.proc.Exited(); i++ {
			c.mu.Lock()
			told := c.sig || c.killed
			c.mu.Unlock()
			if i > 200 && !told {
				break
			}
			select {
			case <-r.Context().Done():
				return
			case <-time.After(10 * time.Millisecond):
			}
		}
	case "206":
		ans(false, true)
		c.mu.Unlock()
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		w.Header().Set("Content-Range", fmt.Sprintf("bytes 0-%d/%d", len(body)-1, len(body)))
		w.WriteHeader(206)
		w.Write(body)
	case "resume":
		ans(false, true)
		c.mu.Unlock()
		w.Header().Set("Content-Length", strconv.Itoa(len(body)-half))
		w.Header().Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", half, len(body)-1, len(body)))
		w.WriteHeader(206)
		w.Write(body[half:])
	case "status":
		st, _ := strconv.Atoi(f[1])
		id = ""
		if len(f) > 2 && c.cont[f[2]] != nil {
			id, body = f[2], c.cont[f[2]].bytes
		}
		c.emit(Event{"ev": "Answer", "u": u, "ok": false, "c": "", "any": false})
		c.mu.Unlock()
		w.WriteHeader(st)
		if st != 204 && st != 304 {
			w.Write(body)
		}
	default: // reset
		ans(false, false)
		c.mu.Unlock()
		reset()
	}
}
