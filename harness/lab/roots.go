package lab

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/csv"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- scenario ---------------------------------------------------------

type RScenario struct {
	ID      string             `json:"id"`
	Certs   []*RCert           `json:"certs"`
	Reports map[string]*Report `json:"reports"`
	Steps   []*RStep           `json:"steps"`
}

// RCert is a certificate made for the scenario. Keys and names are symbols.
type RCert struct {
	ID   string `json:"id"`
	Key  string `json:"key"`
	Subj string `json:"subj"`
	Iss  string `json:"iss"`
	Sign string `json:"sign"` // the key that signs
	AKI  string `json:"aki"`  // the key it claims to be signed by; default Sign
	CA   string `json:"ca"`   // yes, no, none
	Plen int    `json:"plen"` // -1: none
	EKU  string `json:"eku"`  // "", server, client, any, both
	KU   string `json:"ku"`   // sign, none, crl
	Life string `json:"life"` // ok, expired, future
	Bad  bool   `json:"bad"`  // its signature is damaged
}

type Report struct {
	Cols string  `json:"cols"` // std, extra, shuffled, missing:<column>
	Rows []*RRow `json:"rows"`
	EOL  string  `json:"eol"`
	Cut  int     `json:"cut"` // the file on disk ends after this many characters of the last row (0: not)
}

type RRow struct {
	C     string   `json:"c"`
	Kind  string   `json:"kind"`
	Rev   string   `json:"rev"`
	Full  string   `json:"full"`
	Part  string   `json:"part"`
	Pem   string   `json:"pem"`  // ok, lead, tail, crlf, empty, garbage, type, trunc, junk
	URLs  []string `json:"urls"` // what the two cells disclose
	PartN bool     `json:"pn"`   // the second discloses anything
}

type RStep struct {
	Local  string   `json:"local"` // report put in place before the run; "" leaves what is there
	Age    float64  `json:"age"`   // its age in hours
	Head   string   `json:"head"`
	Ans    []string `json:"ans"`
	Tool   string   `json:"tool"` // aggregate (default), get
	Known  bool     `json:"known"`
	Remove bool     `json:"remove"` // take the report away first
}

type Roots struct {
	Sc      *RScenario
	Rd      *Redis
	Work    string
	Bindir  string
	Events  []Event
	Err     error
	Classes map[string]int
	Fired   int

	mu    sync.Mutex
	keys  map[string]*ecdsa.PrivateKey
	der   map[string][]byte
	byDER map[[32]byte]string
	ids   map[string]string // issuer id -> key
	text  map[string][]byte
	ends  map[string][]int
	urls  map[string]string
	seen  map[string]bool
	step  *RStep
	asked int
	srv   *http.Server
	host  string
	proc  *Proc
	pool  *crlPool
}

func NewRoots(sc *RScenario, rd *Redis, work, bin string) *Roots {
	return &Roots{Sc: sc, Rd: rd, Work: work, Bindir: bin, Classes: map[string]int{}, keys: map[string]*ecdsa.PrivateKey{}, der: map[string][]byte{}, byDER: map[[32]byte]string{},
		ids: map[string]string{}, text: map[string][]byte{}, ends: map[string][]int{}, urls: map[string]string{}}
}

func (c *Roots) emit(e Event) { c.Events = append(c.Events, e) }

func (c *Roots) key(n string) *ecdsa.PrivateKey {
	if c.keys[n] == nil {
		c.keys[n] = newKey()
		h := sha256.Sum256(must(x509.MarshalPKIXPublicKey(&c.keys[n].PublicKey)))
		c.ids[base64.URLEncoding.EncodeToString(h[:])] = n
	}
	return c.keys[n]
}

func ski(k *ecdsa.PrivateKey) []byte {
	h := sha256.Sum256(must(x509.MarshalPKIXPublicKey(&k.PublicKey)))
	return h[:20]
}

func rname(n string) pkix.Name {
	if strings.HasPrefix(n, "!") { // awkward characters
		return pkix.Name{CommonName: n + ` "q", \ <ß> & + = ; #é 证`, Organization: []string{"O, Inc. \u2028"}, Country: []string{"XX"}}
	}
	return pkix.Name{CommonName: n, Organization: []string{"Org"}}
}

func (c *Roots) build(s *RCert) error {
	k, sk := c.key(s.Key), c.key(s.Sign)
	now := time.Now()
	nb, na := now.Add(-100*24*time.Hour), now.Add(3000*24*time.Hour)
	switch s.Life {
	case "expired":
		na = now.Add(-2 * time.Hour)
	case "future":
		nb = now.Add(2 * time.Hour)
	}
	t := &x509.Certificate{SerialNumber: new(big.Int).SetBytes([]byte("c" + s.ID)), Subject: rname(s.Subj), NotBefore: nb, NotAfter: na, SubjectKeyId: ski(k), BasicConstraintsValid: s.CA != "none", IsCA: s.CA == "yes"}
	if s.Plen >= 0 && t.IsCA {
		t.MaxPathLen, t.MaxPathLenZero = s.Plen, s.Plen == 0
	} else {
		t.MaxPathLen = -1
	}
	switch s.KU {
	case "none":
	case "crl":
		t.KeyUsage = x509.KeyUsageCRLSign
	default:
		t.KeyUsage = x509.KeyUsageCRLSign | x509.KeyUsageCertSign
	}
	switch s.EKU {
	case "server":
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	case "client":
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageEmailProtection}
	case "any":
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageAny}
	case "both":
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}
	}
	aki := sk
	if s.AKI != "" {
		aki = c.key(s.AKI)
	}
	p := &x509.Certificate{Subject: rname(s.Iss), SubjectKeyId: ski(aki), PublicKey: &sk.PublicKey, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, p, &k.PublicKey, sk)
	if err != nil {
		return err
	}
	if s.Bad {
		der = append([]byte{}, der...)
		der[len(der)-3] ^= 0x10
	}
	c.der[s.ID] = der
	c.byDER[sha256.Sum256(der)] = s.ID
	return nil
}

// report makes the text of a report and where its rows end.
func (c *Roots) report(id string, r *Report) error {
	cols := []string{"SHA_256_Fingerprint", "X.509_Certificate_PEM", "RecordType.Name", "Revocation_Status__c", "Full_CRL_Issued_By_This_CA", "JSON_Array_of_Partitioned_CRLs"}
	get := map[string]func(x *RRow) string{
		"SHA_256_Fingerprint": func(x *RRow) string { return fmt.Sprintf("%X", sha256.Sum256(c.der[x.C])) },
		"X.509_Certificate_PEM": func(x *RRow) string {
			der, typ := c.der[x.C], "CERTIFICATE"
			switch x.Pem {
			case "type":
				typ = "PUBLIC KEY"
			case "trunc":
				der = der[:len(der)-20]
			case "junk":
				der = append([]byte{0x30, 0x03, 1, 1, 0xff}, der[:40]...)
			case "empty":
				return ""
			case "garbage":
				return "-----BEGIN CERTIFICATE-----\n@@@@\n-----END CERTIFICATE-----\n"
			}
			s := string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}))
			switch x.Pem {
			case "lead":
				s = "\n" + s
			case "tail":
				s = strings.TrimSuffix(s, "\n")
			case "crlf":
				s = strings.ReplaceAll(s, "\n", "\r\n")
			}
			return s
		},
		"RecordType.Name":                func(x *RRow) string { return x.Kind },
		"Revocation_Status__c":           func(x *RRow) string { return x.Rev },
		"Full_CRL_Issued_By_This_CA":     func(x *RRow) string { return x.Full },
		"JSON_Array_of_Partitioned_CRLs": func(x *RRow) string { return x.Part },
		"Name":                           func(x *RRow) string { return "An, \"odd\"\nname" },
		"Zz":                             func(x *RRow) string { return "" },
	}
	switch f := strings.SplitN(r.Cols, ":", 2); f[0] {
	case "extra":
		cols = append([]string{"Name"}, append(cols, "Zz")...)
	case "shuffled":
		cols = []string{"JSON_Array_of_Partitioned_CRLs", "Revocation_Status__c", "Zz", "X.509_Certificate_PEM", "Full_CRL_Issued_By_This_CA", "Name", "RecordType.Name"}
	case "missing":
		var k []string
		for _, x := range cols {
			if x != f[1] {
				k = append(k, x)
			}
		}
		cols = k
	}
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.UseCRLF = r.EOL == "crlf"
	if err := w.Write(cols); err != nil {
		return err
	}
	w.Flush()
	ends := []int{b.Len()}
	for _, x := range r.Rows {
		var l []string
		for _, n := range cols {
			l = append(l, get[n](x))
		}
		w.Write(l)
		w.Flush()
		ends = append(ends, b.Len())
	}
	c.text[id], c.ends[id] = b.Bytes(), ends
	return w.Error()
}

func (c *Roots) Run() {
	defer func() {
		if r := recover(); r != nil {
			c.Err = fmt.Errorf("panic: %v", r)
		}
		if c.proc != nil && !c.proc.Exited() {
			c.proc.Kill()
			c.proc.Wait(5 * time.Second)
		}
		if c.srv != nil {
			c.srv.Close()
		}
	}()
	c.Err = c.run()
}

func yn(b bool, y, n string) string {
	if b {
		return y
	}
	return n
}

func (c *Roots) run() error {
	c.pool = getCrlPool()
	os.MkdirAll(filepath.Join(c.Work, "tmp"), 0755)
	certs := []Event{}
	for _, s := range c.Sc.Certs {
		if err := c.build(s); err != nil {
			return fmt.Errorf("certificate %s: %v", s.ID, err)
		}
		k := s.Sign
		if s.Bad {
			k = "-"
		}
		certs = append(certs, Event{"id": s.ID, "key": s.Key, "subj": s.Subj, "iss": s.Iss, "sign": k, "ca": s.CA == "yes", "plen": s.Plen, "tls": s.EKU != "client", "ku": s.KU, "now": s.Life == "" || s.Life == "ok"})
	}
	reps := []Event{}
	names := []string{}
	for n := range c.Sc.Reports {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r := c.Sc.Reports[n]
		if err := c.report(n, r); err != nil {
			return err
		}
		rows := []Event{}
		for _, x := range r.Rows {
			us := []string{}
			for _, u := range x.URLs {
				c.urls[canonURL(u)] = u
				us = append(us, u)
			}
			rows = append(rows, Event{"c": x.C, "kind": yn(x.Kind == "Root Certificate", "root", yn(x.Kind == "Intermediate Certificate", "inter", "other")), "rev": !(x.Rev == "" || x.Rev == "Not Revoked"),
				"parse": x.Pem == "" || x.Pem == "ok" || x.Pem == "lead" || x.Pem == "tail" || x.Pem == "crlf", "urls": us, "part": x.PartN})
		}
		reps = append(reps, Event{"id": n, "ok": !strings.HasPrefix(r.Cols, "missing") && r.Cut == 0, "rows": rows})
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	c.host = ln.Addr().String()
	c.srv = &http.Server{Handler: http.HandlerFunc(c.http)}
	go c.srv.Serve(ln)
	os.WriteFile(filepath.Join(c.Work, "ca.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.pool.tls.der}), 0644)
	c.emit(Event{"ev": "Reset", "id": c.Sc.ID, "certs": certs, "reports": reps})
	for n, s := range c.Sc.Steps {
		if err := c.one(n, s); err != nil {
			return err
		}
	}
	c.emit(Event{"ev": "Finish"})
	return nil
}

func (c *Roots) one(n int, s *RStep) error {
	ccadb := filepath.Join(c.Work, "ccadb.csv")
	if s.Remove {
		os.Remove(ccadb)
		c.emit(Event{"ev": "Local", "r": "", "fresh": false})
	}
	if s.Local != "" {
		b := c.text[s.Local]
		if k := c.Sc.Reports[s.Local].Cut; k > 0 {
			e := c.ends[s.Local]
			b = b[:e[len(e)-2]+k]
		}
		if err := os.WriteFile(ccadb, b, 0644); err != nil {
			return err
		}
		at := time.Now().Add(-time.Duration(s.Age * float64(time.Hour)))
		os.Chtimes(ccadb, at, at)
		c.emit(Event{"ev": "Local", "r": s.Local, "fresh": s.Age < 12})
		if s.Age >= 12 {
			c.Fired++
		}
	}
	d := filepath.Join(c.Work, fmt.Sprintf("run%d", n))
	os.MkdirAll(d, 0755)
	c.mu.Lock()
	c.step, c.asked, c.seen = s, 0, map[string]bool{}
	c.mu.Unlock()
	c.emit(Event{"ev": "Begin"})
	env := BaseEnv(filepath.Join(c.Work, "tmp"), "numThreads=2", "http_proxy=http://"+c.host, "https_proxy=http://"+c.host, "SSL_CERT_FILE="+filepath.Join(c.Work, "ca.pem"))
	argv := []string{c.Bindir + "/aggregate-crls", "-logtostderr", "-ccadb", ccadb, "-crlpath", filepath.Join(c.Work, "crls"), "-revokedpath", d + "/revoked", "-enrolledpath", d + "/enrolled.json", "-auditpath", d + "/audit.json"}
	if s.Tool == "get" {
		argv = []string{c.Bindir + "/get-mozilla-issuers", "-logtostderr", "-ccadb", ccadb, "-out", d + "/enrolled.json"}
	}
	code, err := c.exec(argv, env, d+"/log")
	if err != nil {
		return err
	}
	c.mu.Lock()
	seen := []string{}
	for u := range c.seen {
		seen = append(seen, u)
	}
	c.mu.Unlock()
	sort.Strings(seen)
	c.Classes["run:"+yn(s.Tool == "", "aggregate", s.Tool)+yn(code == 0, "", "-refused")]++
	has, items := c.enrolled(d + "/enrolled.json")
	ask := []Event{}
	hasa := false
	if s.Tool != "get" {
		hasa, ask = c.audit(d + "/audit.json")
	}
	// subject names and such are compared here, everything that depends on the report in the specification
	c.emit(Event{"ev": "End", "code": code, "has": has, "items": items, "hasaudit": hasa, "asked": ask, "seen": seen, "crls": s.Tool != "get", "killed": c.proc.Killed})
	if s.Known && code == 0 && has {
		ks, kc, err := c.known(n, d)
		if err != nil {
			return err
		}
		c.emit(Event{"ev": "Known", "code": kc, "lists": ks, "keys": keyNames(c.keys)})
	}
	return nil
}

func keyNames(m map[string]*ecdsa.PrivateKey) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (c *Roots) exec(argv, env []string, log string) (int, error) {
	c.mu.Lock()
	p, err := StartProc(argv, env, c.Work, log)
	if err == nil {
		c.proc = p
	}
	c.mu.Unlock()
	if err != nil {
		return 0, err
	}
	if !p.Wait(60 * time.Second) {
		p.Kill()
		p.Wait(5 * time.Second)
		return 99, nil
	}
	return p.Code, nil
}

func (c *Roots) enrolled(p string) (bool, []Event) {
	r := []Event{}
	b, err := os.ReadFile(p)
	if err != nil {
		return false, r
	}
	var l []struct {
		UniqueID, PubKeyHash, Subject, Pem string
		UsesPartitionedCrls                bool
	}
	if json.Unmarshal(b, &l) != nil {
		return false, r
	}
	for _, e := range l {
		id, ok, key := "?", false, "?"
		if blk, _ := pem.Decode([]byte(e.Pem)); blk != nil {
			if n, have := c.byDER[sha256.Sum256(blk.Bytes)]; have {
				id = n
				if x, err := x509.ParseCertificate(blk.Bytes); err == nil {
					u := sha256.Sum256(append(append([]byte{}, x.RawSubject...), x.RawSubjectPublicKeyInfo...))
					k := sha256.Sum256(x.RawSubjectPublicKeyInfo)
					ok = e.UniqueID == base64.URLEncoding.EncodeToString(u[:]) && e.PubKeyHash == base64.URLEncoding.EncodeToString(k[:]) && e.Subject == x.Subject.String()
				}
			}
		}
		if n, have := c.ids[e.PubKeyHash]; have {
			key = n
		}
		r = append(r, Event{"k": key, "c": id, "ok": ok, "part": e.UsesPartitionedCrls})
	}
	return true, r
}

func (c *Roots) audit(p string) (bool, []Event) {
	r := []Event{}
	b, err := os.ReadFile(p)
	if err != nil {
		return false, r
	}
	var a struct {
		Entries []struct{ Url, Issuer, Kind string }
	}
	if json.Unmarshal(b, &a) != nil {
		return false, r
	}
	for _, e := range a.Entries {
		u, ok := c.urls[canonURL(e.Url)]
		if !ok {
			u = "?" + e.Url
		}
		i, ok := c.ids[e.Issuer]
		if !ok {
			i = "?" + e.Issuer
		}
		r = append(r, Event{"k": i, "u": u})
	}
	return true, r
}

// known runs the consumer of the enrolled list on a store with one serial number per key.
func (c *Roots) known(n int, d string) ([]Event, int, error) {
	store := filepath.Join(d, "store")
	exp := time.Now().UTC().Truncate(time.Hour).Add(50 * 24 * time.Hour)
	i := 0
	want := map[string]string{}
	for id, k := range c.ids {
		i++
		dir := filepath.Join(store, "serials", "issuer::"+id)
		os.MkdirAll(dir, 0755)
		want[k] = fmt.Sprintf("%02x%02x", 16+i, len(k))
		os.WriteFile(filepath.Join(dir, "serials::"+exp.Format("2006-01-02-15")+"::"+id), []byte(fmt.Sprintf("@%016x\n%s\n", exp.Unix(), want[k])), 0644)
	}
	os.WriteFile(filepath.Join(store, "ct-logs.json"), []byte("[]\n"), 0644)
	c.Rd.Do("FLUSHALL")
	env := BaseEnv(filepath.Join(c.Work, "tmp"), "certPath="+store, "redisHost="+c.Rd.Addr, "numThreads=2", "redisTimeout=20s")
	code, err := c.exec([]string{c.Bindir + "/aggregate-known", "-logtostderr", "-enrolledpath", d + "/enrolled.json", "-knownpath", d + "/known", "-ctlogspath", d + "/ct-logs.json"}, env, d+"/klog")
	if err != nil {
		return nil, 0, err
	}
	c.Classes["known"]++
	r := []Event{}
	ents, _ := os.ReadDir(d + "/known")
	for _, f := range ents {
		if ignorable(f.Name()) {
			continue
		}
		b, _ := os.ReadFile(d + "/known/" + f.Name())
		k, ok := c.ids[f.Name()]
		if !ok {
			k = "?" + f.Name()
		}
		secs, wf, _ := ParseSections(b)
		good := wf && len(secs) == 1 && len(secs[0].Serials) == 1 && secs[0].Serials[0] == want[k]
		r = append(r, Event{"k": k, "ok": good})
	}
	return r, code, nil
}

// ---- servers -------------------------------------------------------------

func (c *Roots) http(w http.ResponseWriter, r *http.Request) {
	if r.Method == http.MethodConnect {
		h, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		fmt.Fprint(h, "HTTP/1.1 200 OK\r\n\r\n")
		t := tls.Server(h, &tls.Config{GetCertificate: c.pool.serverCert})
		if t.Handshake() != nil {
			t.Close()
			return
		}
		target := strings.TrimSuffix(r.Host, ":443")
		go (&http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			q.URL.Scheme, q.URL.Host = "https", target
			c.serve(w, q)
		})}).Serve(&oneConn{c: t, ch: make(chan bool)})
		return
	}
	c.serve(w, r)
}

func (c *Roots) serve(w http.ResponseWriter, r *http.Request) {
	if r.URL.Host == "ccadb.my.salesforce-sites.com" {
		c.serveReport(w, r)
		return
	}
	r.URL.Fragment = ""
	key := r.URL.String()
	c.mu.Lock()
	u, ok := c.urls[canonURL(key)]
	if !ok {
		u = "?" + key
	}
	if c.seen != nil {
		c.seen[u] = true
	}
	c.mu.Unlock()
	http.Error(w, "no such CRL", 404)
}

func (c *Roots) serveReport(w http.ResponseWriter, r *http.Request) {
	c.mu.Lock()
	s := c.step
	a := "status:503"
	if len(s.Ans) > 0 {
		a = s.Ans[min(c.asked, len(s.Ans)-1)]
	}
	f := strings.Split(a, ":")
	rep := ""
	var body []byte
	if len(f) > 1 && c.text[f[1]] != nil {
		rep = f[1]
		body = c.text[rep]
	}
	if r.Method == http.MethodHead {
		c.mu.Unlock()
		if s.Head != "" && rep != "" {
			lm, _ := strconv.ParseFloat(s.Head, 64)
			w.Header().Set("Last-Modified", time.Now().Add(-time.Duration(lm*float64(time.Hour))).UTC().Format(http.TimeFormat))
			w.Header().Set("Accept-Ranges", "bytes")
			w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		}
		return
	}
	c.asked++
	c.Fired++
	c.Classes["report:"+f[0]]++
	ok := f[0] == "ok" || f[0] == "chunk"
	if f[0] == "cut" || f[0] == "kill" { // cut off after everything was said
		n, _ := strconv.Atoi(f[2])
		ok = n >= len(c.ends[rep])-1
	}
	old, _ := strconv.ParseFloat(s.Head, 64)
	c.emit(Event{"ev": "Served", "r": rep, "ok": ok, "fresh": old < 12})
	c.mu.Unlock()
	if s.Head != "" && rep != "" {
		lm, _ := strconv.ParseFloat(s.Head, 64)
		w.Header().Set("Last-Modified", time.Now().Add(-time.Duration(lm*float64(time.Hour))).UTC().Format(http.TimeFormat))
	}
	drop := func() {
		http.NewResponseController(w).Flush()
		if h, _, err := http.NewResponseController(w).Hijack(); err == nil {
			h.Close()
		}
	}
	switch f[0] {
	case "ok":
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		w.Write(body)
	case "chunk":
		w.Write(body[:len(body)/2])
		http.NewResponseController(w).Flush()
		w.Write(body[len(body)/2:])
	case "cut", "cutchunk": // after so many rows
		n, _ := strconv.Atoi(f[2])
		e := c.ends[rep]
		if f[0] == "cut" {
			w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		}
		w.Write(body[:e[min(n, len(e)-1)]])
		drop()
	case "kill": // the process is killed in the middle
		n, _ := strconv.Atoi(f[2])
		e := c.ends[rep]
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		w.Write(body[:e[min(n, len(e)-1)]])
		http.NewResponseController(w).Flush()
		time.Sleep(30 * time.Millisecond)
		c.mu.Lock()
		p := c.proc
		c.mu.Unlock()
		if p != nil {
			p.Kill()
		}
		drop()
	case "status":
		st, _ := strconv.Atoi(f[1])
		if len(f) > 2 && c.text[f[2]] != nil {
			body = c.text[f[2]]
		}
		w.WriteHeader(st)
		w.Write(body)
	default:
		drop()
	}
}
