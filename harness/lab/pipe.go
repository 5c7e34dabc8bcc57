package lab

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/resp"
)

// ---- scenario ---------------------------------------------------------

type Scenario struct {
	ID      string      `json:"id"`
	Bins    []BinSpec   `json:"bins"`
	Logs    []LogSpec   `json:"logs"`
	Entries []EntrySpec `json:"entries"`
	Issuers []string    `json:"issuers"`
	Enroll  []string    `json:"enroll"`
	Threads int         `json:"threads"`
	Steps   []*Step     `json:"steps"`
	Tags    []string    `json:"tags,omitempty"`
	FSWatch bool        `json:"fswatch,omitempty"`
	TSBase  uint64      `json:"tsbase,omitempty"` // added to every timestamp for the real system
}

type BinSpec struct {
	ID     string `json:"id"`
	Issuer string `json:"issuer"`
	Kind   string `json:"kind"` // future, day, past, dayPast, edge, dayEdge
	K      int    `json:"k"`
}

type LogSpec struct {
	ID  string `json:"id"`
	MMD uint64 `json:"mmd"` // seconds
}

type EntrySpec struct {
	ID     string `json:"id"`
	Log    string `json:"log"`
	TS     uint64 `json:"ts"`
	Serial string `json:"serial"`
	Bin    string `json:"bin"`
	Legacy bool   `json:"legacy"`
}

type Step struct {
	Op    string   `json:"op"`
	E     []string `json:"e,omitempty"`
	Log   string   `json:"log,omitempty"`
	Min   uint64   `json:"min,omitempty"`
	Max   uint64   `json:"max,omitempty"`
	MinTS uint64   `json:"mints,omitempty"`
	MaxTS uint64   `json:"maxts,omitempty"`
	Proc  string   `json:"proc,omitempty"`
	Name  string   `json:"name,omitempty"`
	Bin   string   `json:"bin,omitempty"`
	S     []string `json:"s,omitempty"`
	Tok   string   `json:"tok,omitempty"`
	Cls   string   `json:"cls,omitempty"`
	At    []*Hook  `json:"at,omitempty"`
	FS    *FSRule  `json:"fs,omitempty"`
	Raw   string   `json:"raw,omitempty"`
	Delay int      `json:"delay,omitempty"`
}

// FSRule makes the N-th (or every from the N-th) matching file operation fail, or kills around it.
type FSRule struct {
	Ops  string `json:"ops"`
	N    int    `json:"n"`
	Plus bool   `json:"plus"`
	Act  string `json:"act"`
}

// Hook fires at the first command (not yet used by another hook) that matches.
type Hook struct {
	Cls   string  `json:"cls,omitempty"`
	K     int     `json:"k,omitempty"`
	Kill  string  `json:"kill,omitempty"`  // pre, post
	Sig   string  `json:"sig,omitempty"`   // TERM, INT
	Fault string  `json:"fault,omitempty"` // error text, "drop", "droppost"
	Ops   []*Step `json:"ops,omitempty"`
	used  bool
}

type Event map[string]any

// ---- runner -----------------------------------------------------------

type Pipe struct {
	Sc       *Scenario
	R        *Redis
	P        *resp.Proxy
	Work     string
	Dir      string // storage
	Tmp      string
	Out      string // known lists etc.
	Bindir   string
	Events   []Event
	binKey   map[string]string // bin id -> "<date>::<issuerID>"
	keyBin   map[string]string
	binExp   map[string]time.Time
	member   map[string]string // redis key + "\x00" + value -> entry id
	entry    map[string]EntrySpec
	serHex   map[string]string // hex -> serial id
	logURL   map[string]string
	urlLog   map[string]string
	issID    map[string]string
	idIss    map[string]string
	prevR    State
	prevS    StoreSnap
	runs     map[string]*run
	rmu      sync.Mutex
	drvs     map[string]*drv
	snap     *State
	ssnap    string
	holder   string
	gateNext map[string]bool
	seen     map[string]bool
	wg       sync.WaitGroup
	nrun     int
	Err      error
	Cmds     int
	NowRef   time.Time
	toks     map[string]string
	Known    string
	Kills    int
	Hooks    int
	Classes  map[string]int
	Ks       map[string]int // commands of the last run per process name
	FSWatch  bool
}

type run struct {
	name     string
	proc     *Proc
	actor    *resp.Actor
	hooks    []*Hook
	kind     string
	k        int
	post     bool
	faulty   bool // a cache fault was injected
	paused   bool
	failNext string
	gated    bool          // each command waits for the schedule
	pend     chan string   // announces a waiting command
	rel      chan bool     // lets it go
	fin      chan struct{} // the run has ended
	cur      string        // the announced class, "" if none
	answered int64         // replies delivered
	sig      bool          // told to stop
	kdir     string
	clog     string
}

type drv struct {
	proc  *Proc
	in    io.WriteCloser
	out   *bufio.Scanner
	pipe  *os.File
	actor *resp.Actor
	name  string
	dead  bool
}

func LogIDOf(name string) string {
	h := sha256.Sum256([]byte("log " + name))
	return base64.StdEncoding.EncodeToString(h[:])
}

var (
	issMu    sync.Mutex
	issCerts = map[string]*IssuerCert{}
)

// IssuerCert is a self-signed CA certificate made for one issuer name.
type IssuerCert struct {
	ID  string
	PEM string
}

func IssuerOf(name string) *IssuerCert {
	issMu.Lock()
	defer issMu.Unlock()
	if c, ok := issCerts[name]; ok {
		return c
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(issCerts) + 1)), Subject: pkix.Name{CommonName: "Issuer " + name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(10000 * time.Hour), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	h := sha256.Sum256(c.RawSubjectPublicKeyInfo)
	r := &IssuerCert{ID: base64.URLEncoding.EncodeToString(h[:]), PEM: string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))}
	issCerts[name] = r
	return r
}

func IssuerIDOf(name string) string { return IssuerOf(name).ID }

func NewPipe(sc *Scenario, r *Redis, work, bindir string) *Pipe {
	p := &Pipe{Sc: sc, R: r, Work: work, Dir: filepath.Join(work, "st"), Tmp: filepath.Join(work, "tmp"), Out: filepath.Join(work, "out"),
		Bindir: bindir, binKey: map[string]string{}, keyBin: map[string]string{}, binExp: map[string]time.Time{},
		member: map[string]string{}, entry: map[string]EntrySpec{}, serHex: map[string]string{}, logURL: map[string]string{},
		urlLog: map[string]string{}, issID: map[string]string{}, idIss: map[string]string{}, runs: map[string]*run{},
		drvs: map[string]*drv{}, toks: map[string]string{}, Classes: map[string]int{}, Ks: map[string]int{}, seen: map[string]bool{}, gateNext: map[string]bool{}}
	os.MkdirAll(p.Tmp, 0755)
	os.MkdirAll(p.Out, 0755)
	os.MkdirAll(filepath.Join(p.Dir, "serials"), 0755)
	return p
}

func (p *Pipe) emit(e Event) { p.Events = append(p.Events, e) }

func (p *Pipe) fail(f string, a ...any) {
	p.rmu.Lock()
	if p.Err == nil {
		p.Err = fmt.Errorf(f, a...)
	}
	p.rmu.Unlock()
}

func (p *Pipe) binTime(b BinSpec, now time.Time) (time.Time, bool) {
	h := now.UTC().Truncate(time.Hour)
	d := now.UTC().Truncate(24 * time.Hour)
	switch b.Kind {
	case "future":
		return h.Add(time.Duration(24*90+b.K) * time.Hour), true
	case "day":
		return d.Add(time.Duration(24*(200+b.K)) * time.Hour), false
	case "past":
		return h.Add(-time.Duration(b.K+1) * time.Hour), true
	case "dayPast":
		return d.Add(-time.Duration(24*(b.K+1)) * time.Hour), false
	case "edge": // the current hour: not over yet
		return h, true
	case "dayEdge": // today: not over yet
		return d, false
	case "next": // the coming hour
		return h.Add(time.Hour), true
	}
	panic("bin kind " + b.Kind)
}

// Run executes the scenario; p.Events is the recorded behaviour.
func (p *Pipe) Run() {
	defer func() {
		if x := recover(); x != nil {
			p.fail("panic: %v", x)
		}
		p.closeAll()
	}()
	sc := p.Sc
	p.FSWatch = sc.FSWatch
	p.R.Do("FLUSHALL")
	// keep away from hour boundaries: bins are computed from the clock
	for {
		n := time.Now().UTC()
		left := n.Truncate(time.Hour).Add(time.Hour).Sub(n)
		if left > 90*time.Second {
			break
		}
		time.Sleep(time.Second)
	}
	p.NowRef = time.Now()
	for _, i := range sc.Issuers {
		id := IssuerIDOf(i)
		p.issID[i] = id
		p.idIss[id] = i
	}
	live := map[string]string{}
	for _, b := range sc.Bins {
		t, hour := p.binTime(b, p.NowRef)
		f := "2006-01-02"
		if hour {
			f = "2006-01-02-15"
		}
		key := t.Format(f) + "::" + p.issID[b.Issuer]
		p.binKey[b.ID] = key
		p.keyBin[key] = b.ID
		p.binExp[b.ID] = t
		switch b.Kind {
		case "past", "dayPast":
			live[b.ID] = "past"
		case "edge", "dayEdge":
			live[b.ID] = "edge"
		default:
			live[b.ID] = "live"
		}
	}
	for _, l := range sc.Logs {
		u := "log-" + strings.ToLower(l.ID) + ".example/ct"
		p.logURL[l.ID] = u
		p.urlLog[u] = l.ID
	}
	for _, e := range sc.Entries {
		p.entry[e.ID] = e
		p.serHex[e.Serial] = e.Serial
	}
	p.P = resp.New(p.R.Addr)
	p.P.Pre = p.pre
	p.P.Before = p.before
	p.P.Done = p.done
	p.P.Post = p.postCmd
	p.prevR = p.R.Dump()
	p.prevS = SnapStore(p.Dir, p.FSWatch)
	if err := p.prepareMembers(); err != nil {
		p.fail("prepare: %v", err)
		return
	}
	// static description for the trace
	bins := []Event{}
	for _, b := range sc.Bins {
		bins = append(bins, Event{"id": b.ID, "iss": b.Issuer, "live": live[b.ID]})
	}
	ents := []Event{}
	idx := map[string]int{}
	for _, e := range sc.Entries {
		lg, ix := e.Log, -1 // position in the log: order of declaration
		if e.Legacy {
			lg = "none"
		} else {
			ix = idx[lg]
			idx[lg]++
		}
		ents = append(ents, Event{"id": e.ID, "log": lg, "ts": e.TS, "ser": e.Serial, "bin": e.Bin, "legacy": e.Legacy, "idx": ix})
	}
	logs := []Event{}
	for _, l := range sc.Logs {
		logs = append(logs, Event{"id": l.ID, "mmd": l.MMD * 1000})
	}
	p.emit(Event{"ev": "Reset", "id": sc.ID, "bins": bins, "ents": ents, "logs": logs, "enroll": strs(sc.Enroll), "issuers": strs(sc.Issuers)})
	for _, s := range sc.Steps {
		if p.Err != nil {
			return
		}
		p.step(s)
	}
	p.wg.Wait()
	p.emit(Event{"ev": "Finish"})
}

func strs(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func (p *Pipe) closeAll() {
	p.rmu.Lock()
	ds := p.drvs
	p.drvs = map[string]*drv{}
	rs := p.runs
	p.rmu.Unlock()
	for _, d := range ds {
		d.close()
	}
	for _, r := range rs {
		if r.proc != nil && !r.proc.Exited() {
			r.proc.Kill()
			r.proc.Wait(5 * time.Second)
		}
		if r.actor != nil {
			r.actor.Close()
		}
	}
}

// prepareMembers asks the code under test how it encodes each entry.
func (p *Pipe) prepareMembers() error {
	p.P.Pre, p.P.Before, p.P.Done, p.P.Post = nil, nil, nil, nil
	d, err := p.newDrv("prep", false)
	if err != nil {
		return err
	}
	var es []map[string]any
	var ids []string
	for _, e := range p.Sc.Entries {
		if e.Legacy {
			raw, _ := hex.DecodeString(e.Serial)
			p.member["serials::"+p.binKey[e.Bin]+"\x00"+string(raw)] = e.ID
			continue
		}
		es = append(es, p.drvEntry(e))
		ids = append(ids, e.ID)
	}
	r, err := d.call(map[string]any{"op": "prepare", "entries": es})
	d.close()
	delete(p.drvs, "prep")
	p.P.Pre, p.P.Before, p.P.Done, p.P.Post = p.pre, p.before, p.done, p.postCmd
	if err != nil {
		return err
	}
	for i, it := range r.Items {
		v, _ := base64.StdEncoding.DecodeString(it[1])
		k := it[0] + "\x00" + string(v)
		if _, dup := p.member[k]; dup {
			return fmt.Errorf("two entries with one encoding: %s and %s", p.member[k], ids[i])
		}
		p.member[k] = ids[i]
	}
	return nil
}

func (p *Pipe) drvEntry(e EntrySpec) map[string]any {
	b := p.binKey[e.Bin]
	parts := strings.Split(b, "::")
	// an expiry inside the hour, so that truncation is exercised
	return map[string]any{"issuer": parts[1], "exp": p.binExp[e.Bin].Unix() + 1234, "ts": p.Sc.TSBase + e.TS, "logid": LogIDOf(e.Log), "serial": e.Serial}
}

type drvResp struct {
	Err   string     `json:"err"`
	Token string     `json:"token"`
	Bool  bool       `json:"bool"`
	Items [][]string `json:"items"`
}

func (p *Pipe) newDrv(name string, ro bool) (*drv, error) {
	a, err := p.P.NewActor(name)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(filepath.Join(p.Bindir, "dbdrv"))
	cmd.Env = BaseEnv(p.Tmp)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	in, _ := cmd.StdinPipe()
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.Stdout = pw
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	proc := &Proc{Pgid: cmd.Process.Pid, done: make(chan struct{})}
	go func() {
		cmd.Wait()
		close(proc.done)
	}()
	s := bufio.NewScanner(pr)
	s.Buffer(make([]byte, 1<<20), 1<<26)
	d := &drv{proc: proc, in: in, out: s, pipe: pr, actor: a, name: name}
	r, err := d.call(map[string]any{"op": "open", "addr": a.Addr(), "dir": p.Dir, "ro": ro})
	if err == nil && r.Err != "" {
		err = fmt.Errorf("open: %s", r.Err)
	}
	if err != nil {
		d.close()
		return nil, err
	}
	p.rmu.Lock()
	p.drvs[name] = d
	p.rmu.Unlock()
	return d, nil
}

func (d *drv) call(q map[string]any) (drvResp, error) {
	var r drvResp
	b, _ := json.Marshal(q)
	if _, err := d.in.Write(append(b, '\n')); err != nil {
		return r, err
	}
	if !d.out.Scan() {
		return r, io.EOF
	}
	return r, json.Unmarshal(d.out.Bytes(), &r)
}

func (d *drv) close() {
	if d.dead {
		return
	}
	d.dead = true
	if !d.proc.Exited() {
		syscall.Kill(-d.proc.Pgid, syscall.SIGKILL)
	}
	<-d.proc.done
	d.in.Close()
	d.pipe.Close()
	d.actor.Close()
}

func (p *Pipe) drv(name string) *drv {
	p.rmu.Lock()
	d := p.drvs[name]
	p.rmu.Unlock()
	if d != nil && !d.dead {
		return d
	}
	d, err := p.newDrv(name, name == "F")
	if err != nil {
		panic(fmt.Sprintf("driver %s: %v", name, err))
	}
	return d
}

// ---- observation ------------------------------------------------------

// observe compares cache and storage with the last observation and emits the
// differences as events of actor by. Caller holds the order lock.
func (p *Pipe) observe(by string, redisToo bool) {
	st := SnapStore(p.Dir, p.FSWatch)
	p.diffStore(by, st)
	p.prevS = st
	if redisToo {
		p.observeRedis(by)
	}
}

func (p *Pipe) observeRedis(by string) {
	s := p.R.Dump()
	p.diffRedis(by, s)
	p.prevR = s
}

func keysOf[V any](ms ...map[string]V) []string {
	seen := map[string]bool{}
	var ks []string
	for _, m := range ms {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
	}
	sort.Strings(ks)
	return ks
}

func (p *Pipe) diffRedis(by string, s State) {
	o := p.prevR
	for _, k := range keysOf(o.Sets, s.Sets) {
		if !strings.HasPrefix(k, "serials::") {
			continue
		}
		bin := p.keyBin[strings.TrimPrefix(k, "serials::")]
		var add, rem []string
		unk := 0
		for _, v := range keysOf(o.Sets[k], s.Sets[k]) {
			was, is := o.Sets[k][v], s.Sets[k][v]
			id, ok := p.member[k+"\x00"+v]
			if was != is && !ok {
				unk++
				continue
			}
			if is && !was {
				add = append(add, id)
			} else if was && !is {
				rem = append(rem, id)
			}
		}
		if len(add) > 0 {
			p.emit(Event{"ev": "Add", "by": by, "e": add})
		}
		if len(rem) > 0 {
			p.emit(Event{"ev": "Rem", "by": by, "e": rem})
		}
		if unk > 0 {
			p.emit(Event{"ev": "Unknown", "by": by, "what": "member of " + k})
		}
		if t := s.PTTL[k]; len(s.Sets[k]) > 0 && bin != "" && t != "" && t[0] != '-' && t != o.PTTL[k] {
			ms, _ := strconv.ParseInt(t, 10, 64)
			p.emit(Event{"ev": "TTL", "by": by, "b": bin, "good": ms >= p.binExp[bin].UnixMilli()})
		}
	}
	for _, k := range keysOf(o.Str, s.Str) {
		was, okw := o.Str[k]
		is, oki := s.Str[k]
		if okw == oki && was == is {
			continue
		}
		switch {
		case k == "epoch":
			n := int64(0)
			if oki {
				n, _ = strconv.ParseInt(is, 10, 64)
			}
			p.emit(Event{"ev": "EpochC", "by": by, "n": n})
		case k == "lock::commit":
			if okw {
				p.rmu.Lock()
				r := p.runs[by]
				p.rmu.Unlock()
				if r != nil && r.kind == "known" {
					p.emit(p.knownOutputs(r, "unlock"))
				}
				p.holder = ""
				p.emit(Event{"ev": "LockDel", "by": by})
			}
			if oki {
				t := s.PTTL[k]
				p.holder = by
				p.emit(Event{"ev": "LockSet", "by": by, "ttl": t != "" && t[0] != '-'})
			}
		case strings.HasPrefix(k, "log::"):
			if !oki {
				p.emit(Event{"ev": "DelLog", "by": by, "log": p.logName(strings.TrimPrefix(k, "log::"))})
				continue
			}
			var c CoverLog
			if json.Unmarshal([]byte(is), &c) != nil {
				p.emit(Event{"ev": "Unknown", "by": by, "what": "log state " + is})
				continue
			}
			p.emit(Event{"ev": "Save", "by": by, "log": p.logName(strings.TrimPrefix(k, "log::")), "st": p.logRec(c)})
		}
	}
}

func (p *Pipe) logName(u string) string {
	if l, ok := p.urlLog[strings.TrimRight(u, "/")]; ok {
		return l
	}
	return "?" + u
}

func (p *Pipe) logRec(c CoverLog) Event {
	id := p.logName(c.ShortURL)
	return Event{"log": id, "mmd": c.MMD * 1000, "min": c.MinEntry & 0x7fffffff, "max": c.MaxEntry & 0x7fffffff, "mints": p.unbase(c.MinTimestamp), "maxts": p.unbase(c.MaxTimestamp),
		"idok": c.LogID == LogIDOf(id)}
}

func (p *Pipe) unbase(t uint64) uint64 {
	if t < p.Sc.TSBase {
		return 0
	}
	return (t - p.Sc.TSBase) & 0x7fffffff
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (p *Pipe) diffStore(by string, s StoreSnap) {
	o := p.prevS
	// Canonical order of what happened since the last command: serial files,
	// coverage, removed files, generation.
	for _, k := range keysOf(s.Bins) {
		nb := s.Bins[k]
		ob, had := o.Bins[k]
		if had && ob.OK == nb.OK && eqStrs(ob.Serials, nb.Serials) {
			continue
		}
		bin := p.keyBin[k]
		if bin == "" {
			p.emit(Event{"ev": "Unknown", "by": by, "what": "file " + k})
			continue
		}
		uniq := map[string]bool{}
		for _, x := range nb.Serials {
			uniq[x] = true
		}
		p.emit(Event{"ev": "StBin", "by": by, "b": bin, "s": strs(keysOf(uniq)), "ok": nb.OK, "dup": len(uniq) != len(nb.Serials), "why": nb.Why})
	}
	if fmt.Sprint(coverStr(o.Cover)) != fmt.Sprint(coverStr(s.Cover)) {
		if s.Cover == nil {
			p.emit(Event{"ev": "StCover", "by": by, "ok": false, "logs": []Event{}})
		} else {
			var logs []Event = []Event{}
			for _, c := range s.Cover.Logs {
				logs = append(logs, p.logRec(c))
			}
			p.emit(Event{"ev": "StCover", "by": by, "ok": s.Cover.OK, "logs": logs})
		}
	}
	for _, k := range keysOf(o.Bins) {
		if _, ok := s.Bins[k]; !ok {
			p.emit(Event{"ev": "StUnlink", "by": by, "b": p.keyBin[k]})
		}
	}
	if o.Epoch != s.Epoch {
		n := int64(-1)
		if v, err := strconv.ParseInt(s.Epoch, 10, 64); err == nil {
			n = v
		}
		p.emit(Event{"ev": "StEpoch", "by": by, "n": n, "ok": s.Epoch != "bad"})
	}
	if p.FSWatch {
		for _, k := range keysOf(o.Tree, s.Tree) {
			if o.Tree[k] != s.Tree[k] {
				_, was := o.Tree[k]
				p.emit(Event{"ev": "Touch", "by": by, "path": k, "was": was, "foreign": p.foreign(k)})
			}
		}
	}
}

// foreign: not a path of this system or one of its temporary files.
func (p *Pipe) foreign(rel string) bool {
	b := filepath.Base(rel)
	if rel == "ct-logs.json" || rel == "epoch" || rel == "serials" || strings.HasPrefix(b, ".") {
		return false
	}
	d := strings.Split(rel, "/")
	if d[0] == "serials" && len(d) == 2 && strings.HasPrefix(b, "issuer::") {
		return false
	}
	return !(d[0] == "serials" && len(d) == 3 && strings.HasPrefix(d[1], "issuer::") && strings.HasPrefix(b, "serials::") && p.keyBin[strings.TrimPrefix(b, "serials::")] != "")
}

func coverStr(c *Cover) string {
	if c == nil {
		return "none"
	}
	return fmt.Sprintf("%v %v", c.OK, c.Logs)
}

// ---- hooks --------------------------------------------------------------

// Class names the role of a command in the protocol.
func (p *Pipe) Class(c resp.Cmd) string {
	n := c.Name()
	arg := ""
	if len(c.Args) > 1 {
		arg = c.Args[1]
	}
	bin := func() string { return p.keyBin[strings.TrimPrefix(arg, "serials::")] }
	switch {
	case n == "GET" && arg == "lock::commit":
		return "lockchk"
	case (n == "SET" || n == "SETNX") && arg == "lock::commit":
		return "lock"
	case n == "EVAL" || n == "EVALSHA" || (n == "DEL" && arg == "lock::commit"):
		return "unlock"
	case n == "GET" && arg == "epoch":
		return "epoch"
	case n == "SET" && arg == "epoch":
		return "setepoch"
	case n == "INCR" && arg == "epoch":
		return "incr"
	case n == "GET" && strings.HasPrefix(arg, "log::"):
		return "getlog"
	case n == "DEL" && strings.HasPrefix(arg, "log::"):
		return "dellog"
	case n == "SET" && strings.HasPrefix(arg, "log::"):
		return "savelog"
	case n == "SCAN" || n == "KEYS":
		for _, a := range c.Args {
			if strings.HasPrefix(a, "log::") {
				return "scanlogs"
			}
			if strings.HasPrefix(a, "serials::") {
				return "scanserials"
			}
		}
		return "scan"
	case n == "SSCAN" || n == "SMEMBERS":
		return "read:" + bin()
	case n == "SREM":
		return "rem:" + bin()
	case n == "SADD":
		return "add:" + bin()
	case n == "EXPIREAT":
		return "ttl"
	}
	return strings.ToLower(n)
}

func (h *Hook) matches(cls string, k int) bool {
	if h.used {
		return false
	}
	if h.K > 0 {
		return h.K == k
	}
	return h.Cls == cls || (strings.HasSuffix(h.Cls, ":*") && strings.HasPrefix(cls, strings.TrimSuffix(h.Cls, "*")))
}

func (p *Pipe) pre(c resp.Cmd) resp.Verdict {
	if c.Name() == "PING" || c.Name() == "INFO" || c.Name() == "COMMAND" || c.Name() == "CLIENT" || c.Name() == "HELLO" {
		return resp.Verdict{}
	}
	p.rmu.Lock()
	r := p.runs[c.Actor]
	p.Cmds++
	p.rmu.Unlock()
	if r == nil {
		return resp.Verdict{}
	}
	cls := p.Class(c)
	p.rmu.Lock()
	r.k++
	k := r.k
	p.Classes[cls]++
	p.Ks[r.name] = k
	var todo []*Hook
	for _, h := range r.hooks {
		if h.matches(cls, k) {
			h.used = true
			p.Hooks++
			todo = append(todo, h)
		}
	}
	p.rmu.Unlock()
	v := resp.Verdict{}
	if r.gated {
		r.paused = true
		r.pend <- cls
		ok := <-r.rel
		r.paused = false
		if !ok {
			v.DropPre = true
			return v
		}
		if r.failNext != "" {
			v.Err = r.failNext
			r.failNext = ""
			r.faulty = true
			p.Hooks++
			return v
		}
	}
	for _, h := range todo {
		if len(h.Ops) > 0 {
			r.quiesce()
			p.P.Lock()
			p.observe(c.Actor, false)
			p.P.Unlock()
			r.paused = true
			for _, s := range h.Ops {
				p.step(s)
			}
			r.paused = false
		}
		switch h.Kill {
		case "pre":
			r.kill()
			v.DropPre = true
			return v
		case "post":
			r.post = true
		}
		switch h.Sig {
		case "TERM":
			r.sig = true
			r.signal(syscall.SIGTERM)
			time.Sleep(30 * time.Millisecond)
		case "INT":
			r.sig = true
			r.signal(syscall.SIGINT)
			time.Sleep(30 * time.Millisecond)
		}
		if h.Fault != "" {
			r.faulty = true
		}
		switch h.Fault {
		case "":
		case "drop":
			v.DropPre = true
		case "droppost":
			v.DropPost = true
		default:
			v.Err = h.Fault
		}
	}
	return v
}

func (r *run) kill() {
	if r.proc != nil {
		r.proc.Kill()
		<-r.proc.done
	}
	r.actor.Close()
}

func (r *run) signal(s syscall.Signal) {
	if r.proc != nil {
		r.proc.Signal(s)
	}
}

// quiesce waits until no thread of the process is running.
func (r *run) quiesce() {
	if r.proc == nil {
		return
	}
	calm := 0
	for i := 0; i < 200 && calm < 3; i++ {
		busy := false
		ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", r.proc.Pgid))
		for _, f := range ts {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			s := string(b)
			if i := strings.LastIndex(s, ") "); i > 0 && (s[i+2] == 'R' || s[i+2] == 'D') {
				busy = true
			}
		}
		if busy {
			calm = 0
		} else {
			calm++
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func (p *Pipe) done(c resp.Cmd, r resp.Reply, v resp.Verdict) {
	write := !IsRead(c.Name()) && v.Err == ""
	if write {
		p.observeRedis(c.Actor)
	}
}

// before: what the process did to the storage before it sent this command.
// With overlapping processes, changes are attributed to the process that holds
// the commit lock while it runs.
func (p *Pipe) before(c resp.Cmd) {
	by := c.Actor
	if p.holder != "" && p.holder != by {
		p.rmu.Lock()
		if r := p.runs[p.holder]; r != nil && (!r.paused || r.gated) {
			by = p.holder
		}
		p.rmu.Unlock()
	}
	p.observe(by, false)
}

func (p *Pipe) postCmd(c resp.Cmd, rep resp.Reply) {
	p.rmu.Lock()
	r := p.runs[c.Actor]
	p.rmu.Unlock()
	if r != nil {
		atomic.AddInt64(&r.answered, 1)
	}
	if r != nil && r.post {
		r.post = false
		r.kill()
	}
}

// ---- steps ----------------------------------------------------------------

func (p *Pipe) begin(name, kind string, hooks []*Hook) *run {
	r := &run{name: name, hooks: hooks, kind: kind, pend: make(chan string), rel: make(chan bool), fin: make(chan struct{})}
	if p.gateNext[name] {
		r.gated = true
		delete(p.gateNext, name)
	}
	p.rmu.Lock()
	p.runs[name] = r
	p.rmu.Unlock()
	p.P.Lock()
	p.emit(Event{"ev": "Begin", "by": name, "kind": kind})
	p.P.Unlock()
	return r
}

func (p *Pipe) end(r *run, code int, killed bool, extra Event) {
	p.P.Lock()
	if p.holder != "" && p.holder != r.name { // a scheduled run that holds the lock may have gone on meanwhile
		p.rmu.Lock()
		h := p.runs[p.holder]
		p.rmu.Unlock()
		if h != nil && h.gated {
			p.observe(p.holder, false)
		}
	}
	p.observe(r.name, true)
	e := Event{"ev": "End", "by": r.name, "kind": r.kind, "code": code, "killed": killed, "faulty": r.faulty, "injected": false, "soft": false, "sig": r.sig, "res": false}
	for k, v := range extra {
		e[k] = v
	}
	p.emit(e)
	p.P.Unlock()
	p.rmu.Lock()
	if p.runs[r.name] == r {
		delete(p.runs, r.name)
	}
	p.rmu.Unlock()
	close(r.fin)
	for _, h := range r.hooks { // interleaved steps whose point was never reached
		if !h.used {
			h.used = true
			for _, s := range h.Ops {
				p.step(s)
			}
		}
	}
}

func (p *Pipe) step(s *Step) {
	if p.Err != nil {
		return
	}
	switch s.Op {
	case "ingest":
		var es []map[string]any
		for _, id := range s.E {
			e, ok := p.entry[id]
			if !ok {
				p.fail("unknown entry %s", id)
				return
			}
			if e.Legacy {
				raw, _ := hex.DecodeString(e.Serial)
				key := "serials::" + p.binKey[e.Bin]
				p.P.Lock()
				p.R.Do("SADD", key, string(raw))
				p.R.Do("EXPIREAT", key, fmt.Sprint(p.binExp[e.Bin].Unix()))
				p.observe("legacy", true)
				p.P.Unlock()
				continue
			}
			p.seen[id] = true
			es = append(es, p.drvEntry(e))
		}
		if len(es) > 0 {
			p.drvOp("F", "ingest", s, map[string]any{"op": "store", "entries": es})
		}
	case "refetch": // what a fetcher that resumes at the saved positions fetches again
		p.refetch(s)
	case "save":
		l := s.Log
		var mmd uint64
		for _, x := range p.Sc.Logs {
			if x.ID == l {
				mmd = x.MMD
			}
		}
		p.drvOp("F", "save", s, map[string]any{"op": "save", "log": map[string]any{"logid": LogIDOf(l), "url": p.logURL[l], "mmd": mmd,
			"min": s.Min, "max": s.Max, "mints": p.Sc.TSBase + s.MinTS, "maxts": p.Sc.TSBase + s.MaxTS}})
	case "ensure":
		p.rmu.Lock()
		d := p.drvs["F"]
		p.rmu.Unlock()
		if d != nil { // a restart of the fetcher
			d.close()
		}
		p.drvOp("F", "ensure", s, map[string]any{"op": "ensure"})
	case "drv": // one operation of a named lock-level actor
		q := map[string]any{"op": s.Raw}
		if s.Tok != "" {
			q["token"] = p.toks[s.Tok]
			if q["token"] == "" {
				q["token"] = "bogus-" + s.Tok
			}
		}
		kind := s.Raw
		if kind == "commit" {
			kind = "rawcommit"
			if s.Name == "F" {
				kind = "rocommit"
			}
		}
		p.drvOp(s.Name, kind, s, q)
	case "drvkill":
		if d := p.drvs[s.Name]; d != nil {
			d.close()
		}
	case "commit":
		p.runBin(s)
	case "spawn", "gate":
		name := s.Name
		if name == "" {
			name = "C"
		}
		p.rmu.Lock()
		p.gateNext[name] = s.Op == "gate"
		p.rmu.Unlock()
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			defer func() {
				if x := recover(); x != nil {
					p.fail("panic: %v", x)
				}
			}()
			if s.Proc == "ensure" {
				p.step(&Step{Op: "ensure", Name: name, At: s.At})
			} else {
				p.runBin(s)
			}
		}()
		for i := 0; i < 2000; i++ { // until it runs
			p.rmu.Lock()
			g := p.runs[name]
			p.rmu.Unlock()
			if g != nil {
				break
			}
			time.Sleep(time.Millisecond)
		}
	case "adv": // let the gated process go on until it has executed a command of the class
		p.adv(s.Name, s.Cls)
	case "advfault": // the next command of the gated process fails
		p.rmu.Lock()
		r := p.runs[s.Name]
		p.rmu.Unlock()
		if r == nil {
			return
		}
		p.await(r)
		if r.cur != "" && r.cur != "unlock" {
			r.failNext = "ERR injected"
		}
		p.adv(s.Name, "")
	case "saveall": // every log, up to the entries fetched so far
		for _, l := range p.Sc.Logs {
			var mn, mx uint64
			n := 0
			gap := false
			for _, e := range p.Sc.Entries {
				if e.Legacy || e.Log != l.ID || gap {
					continue
				}
				if !p.seen[e.ID] {
					gap = true
					continue
				}
				if n == 0 || e.TS < mn {
					mn = e.TS
				}
				if e.TS > mx {
					mx = e.TS
				}
				n++
			}
			if n > 0 && (s.Log == "" || s.Log == l.ID) {
				p.step(&Step{Op: "save", Log: l.ID, Max: uint64(n - 1), MinTS: mn, MaxTS: mx + s.MaxTS, At: s.At})
			}
		}
	case "crash":
		p.rmu.Lock()
		r := p.runs[s.Name]
		p.rmu.Unlock()
		if r == nil {
			return
		}
		p.await(r)
		r.gated = false
		if r.proc != nil {
			r.proc.Kill()
			<-r.proc.done
		}
		if r.cur != "" {
			r.cur = ""
			r.rel <- false
		}
		<-r.fin
	case "finish":
		p.rmu.Lock()
		r := p.runs[s.Name]
		p.rmu.Unlock()
		if r == nil {
			return
		}
		for {
			p.await(r)
			if r.cur == "" {
				break
			}
			r.cur = ""
			r.rel <- true
		}
		select {
		case <-r.fin:
		case <-time.After(60 * time.Second):
			p.fail("%s does not finish", s.Name)
		}
	case "sleep":
		time.Sleep(time.Duration(s.Delay) * time.Millisecond)
	case "join":
		p.wg.Wait()
	case "expect":
		p.P.Lock()
		p.emit(Event{"ev": "Expect"})
		p.P.Unlock()
	case "stsnap":
		p.ssnap = p.Dir + ".snap"
		os.RemoveAll(p.ssnap)
		if out, err := exec.Command("cp", "-a", p.Dir, p.ssnap).CombinedOutput(); err != nil {
			p.fail("cp: %v %s", err, out)
		}
		p.P.Lock()
		p.emit(Event{"ev": "StSnap"})
		p.P.Unlock()
	case "strollback":
		if p.ssnap == "" {
			return
		}
		p.P.Lock()
		os.RemoveAll(p.Dir)
		if out, err := exec.Command("cp", "-a", p.ssnap, p.Dir).CombinedOutput(); err != nil {
			p.fail("cp: %v %s", err, out)
		}
		p.prevS = SnapStore(p.Dir, p.FSWatch)
		p.emit(Event{"ev": "StRollback"})
		p.P.Unlock()
	case "flush":
		p.P.Lock()
		p.R.Do("FLUSHALL")
		p.emit(Event{"ev": "Flush"})
		p.prevR = p.R.Dump()
		p.P.Unlock()
	case "snap":
		p.P.Lock()
		st := p.R.Dump()
		p.snap = &st
		p.emit(Event{"ev": "Snap"})
		p.P.Unlock()
	case "rollback":
		if p.snap == nil {
			return
		}
		p.P.Lock()
		p.R.Restore(*p.snap)
		p.emit(Event{"ev": "Rollback"})
		p.prevR = p.R.Dump()
		p.P.Unlock()
	case "lockdead": // the lock of a process that has ended is given up
		p.rmu.Lock()
		dead := p.holder != "" && p.runs[p.holder] == nil && p.drvs[p.holder] == nil
		p.rmu.Unlock()
		if dead {
			p.step(&Step{Op: "lockexpire"})
		}
	case "lockexpire":
		p.P.Lock()
		p.R.Do("DEL", "lock::commit")
		d := p.R.Dump()
		p.emit(Event{"ev": "LockExpire"})
		p.prevR = d
		p.P.Unlock()
	case "prestore":
		key := p.binKey[s.Bin]
		parts := strings.Split(key, "::")
		dir := filepath.Join(p.Dir, "serials", "issuer::"+parts[1])
		os.MkdirAll(dir, 0755)
		var b strings.Builder
		fmt.Fprintf(&b, "@%016x\n", p.binExp[s.Bin].Unix())
		for _, x := range s.S {
			b.WriteString(x + "\n")
		}
		f := filepath.Join(dir, "serials::"+key)
		os.WriteFile(f+".x", []byte(b.String()), 0644)
		os.Rename(f+".x", f)
		p.P.Lock()
		p.prevS = SnapStore(p.Dir, p.FSWatch)
		p.emit(Event{"ev": "PreStore", "b": s.Bin, "s": strs(s.S)})
		for _, x := range s.S {
			p.serHex[x] = x
		}
		p.P.Unlock()
	case "litter": // left-over temporary files and foreign names
		os.WriteFile(filepath.Join(p.Dir, ".ct-logs.json12345"), []byte("[{"), 0600)
		os.WriteFile(filepath.Join(p.Tmp, ".epoch999"), []byte("7"), 0600)
		os.MkdirAll(filepath.Join(p.Dir, "serials", "lost+found"), 0755)
		for _, b := range p.Sc.Bins {
			parts := strings.Split(p.binKey[b.ID], "::")
			dir := filepath.Join(p.Dir, "serials", "issuer::"+parts[1])
			os.MkdirAll(dir, 0755)
			os.WriteFile(filepath.Join(dir, ".serials::"+p.binKey[b.ID]+"77"), []byte("@00"), 0600)
			break
		}
		p.P.Lock()
		p.prevS = SnapStore(p.Dir, p.FSWatch)
		p.P.Unlock()
	default:
		p.fail("unknown step %s", s.Op)
	}
}

// await waits until the gated run waits at a command or has ended.
func (p *Pipe) await(r *run) {
	if r.cur != "" {
		return
	}
	select {
	case c := <-r.pend:
		r.cur = c
	case <-r.fin:
	case <-time.After(30 * time.Second):
		p.fail("%s neither waits nor ends", r.name)
	}
}

// Hangs counts processes that did not end by themselves.
var Hangs int64

func (p *Pipe) adv(name, cls string) {
	p.rmu.Lock()
	r := p.runs[name]
	p.rmu.Unlock()
	if r == nil {
		return
	}
	locks := 0
	for p.Err == nil {
		p.await(r)
		if r.cur == "" {
			return
		}
		c := r.cur
		if c == "lock" {
			if locks++; locks > 3 {
				return // waits for a lock somebody else holds
			}
		}
		r.cur = ""
		n := atomic.LoadInt64(&r.answered)
		r.rel <- true
		for i := 0; i < 1000 && atomic.LoadInt64(&r.answered) == n; i++ {
			select {
			case <-r.fin:
				i = 1000
			case <-time.After(time.Millisecond):
			}
		}
		p.await(r)
		if r.cur != "" {
			r.quiesce()
			p.P.Lock()
			p.observe(name, false)
			p.P.Unlock()
			r.paused = true
		}
		if c == cls || cls == "" {
			return
		}
	}
}

func (p *Pipe) refetch(s *Step) {
	pos := map[string]int64{}
	for l, u := range p.logURL {
		pos[l] = -1
		v := p.R.Do("GET", "log::"+u)
		if v.Nil {
			continue
		}
		var c CoverLog
		if json.Unmarshal([]byte(v.Str), &c) == nil {
			pos[l] = int64(c.MaxEntry)
		}
	}
	idx := map[string]int64{}
	var again []string
	for _, e := range p.Sc.Entries {
		if e.Legacy {
			continue
		}
		i := idx[e.Log]
		idx[e.Log]++
		if p.seen[e.ID] && i > pos[e.Log] {
			again = append(again, e.ID)
		}
	}
	if len(again) > 0 {
		p.step(&Step{Op: "ingest", E: again, At: s.At})
	}
}

// drvOp performs one call in a driver process, with hooks on its commands.
func (p *Pipe) drvOp(name, kind string, s *Step, q map[string]any) {
	d := p.drv(name)
	r := p.begin(name, kind, s.At)
	r.actor = d.actor
	r.proc = d.proc
	rep, err := d.call(q)
	killed := false
	code := 0
	if err != nil {
		d.close()
		killed = r.proc.Killed
		if killed {
			p.rmu.Lock()
			p.Kills++
			p.rmu.Unlock()
		}
		if !killed {
			p.fail("driver %s died during %s", name, kind)
		}
	}
	if rep.Err != "" {
		code = 1
	}
	extra := Event{"res": rep.Bool, "msg": rep.Err}
	if s.Raw == "acquire" && rep.Token != "" && s.Tok == "" {
		p.toks[name] = rep.Token
	}
	p.end(r, code, killed, extra)
}

func (p *Pipe) enrolledFile() string {
	f := filepath.Join(p.Out, "enrolled.json")
	l := []map[string]any{}
	for _, i := range p.Sc.Enroll {
		l = append(l, map[string]any{"uniqueID": p.issID[i], "pubKeyHash": p.issID[i], "subject": "CN=Issuer " + i, "pem": IssuerOf(i).PEM, "usesPartitionedCrls": false})
	}
	b, _ := json.Marshal(l)
	os.WriteFile(f, b, 0644)
	return f
}

func (p *Pipe) runBin(s *Step) {
	name := s.Name
	if name == "" {
		name = "C"
	}
	var kdir, clog string
	a, err := p.P.NewActor(name)
	if err != nil {
		p.fail("%v", err)
		return
	}
	p.P.Lock()
	p.nrun++
	kdir = filepath.Join(p.Out, fmt.Sprintf("known%d", p.nrun))
	clog = filepath.Join(p.Out, fmt.Sprintf("ct-logs%d.json", p.nrun))
	slog := ""
	if s.FS != nil {
		slog = filepath.Join(p.Out, fmt.Sprintf("ptr%d", p.nrun))
	}
	plog := filepath.Join(p.Out, fmt.Sprintf("log%d", p.nrun))
	p.P.Unlock()
	r := p.begin(name, s.Proc, s.At)
	r.actor, r.kdir, r.clog = a, kdir, clog
	var argv []string
	switch s.Proc {
	case "known":
		argv = []string{filepath.Join(p.Bindir, "aggregate-known"), "-logtostderr", "-enrolledpath", p.enrolledFile(), "-knownpath", kdir, "-ctlogspath", clog}
	default:
		argv = []string{filepath.Join(p.Bindir, "commit"), "-logtostderr"}
	}
	if slog != "" {
		n := fmt.Sprint(s.FS.N)
		if s.FS.Plus {
			n += "+"
		}
		argv = append([]string{filepath.Join(p.Bindir, "ptr"), "-l", slog, "-m", p.Work, "-x", p.Out + "/log", "-o", s.FS.Ops, "-n", n, "-a", s.FS.Act, "--"}, argv...)
	}
	th := p.Sc.Threads
	if th == 0 {
		th = 2
	}
	env := BaseEnv(p.Tmp, "certPath="+p.Dir, "redisHost="+a.Addr(), "numThreads="+fmt.Sprint(th), "redisTimeout=20s")
	pr, err := StartProc(argv, env, p.Tmp, plog)
	if err != nil {
		p.fail("%v", err)
		return
	}
	p.rmu.Lock()
	r.proc = pr
	p.rmu.Unlock()
	hang := false
	if atomic.LoadInt64(&Hangs) > 12 {
		p.fail("skipped: too many processes did not end")
		pr.Kill()
		<-pr.done
	} else if !pr.Wait(60 * time.Second) {
		atomic.AddInt64(&Hangs, 1)
		hang = true
	}
	a.Close()
	killed := pr.Killed
	code := pr.Code
	extra := Event{}
	if hang {
		killed, code = false, 124
		extra["msg"] = "did not end: " + Tail(pr.Out, 3)
	}
	if slog != "" {
		if b, err := os.ReadFile(slog); err == nil {
			nops := 0
			for _, ln := range strings.Split(string(b), "\n") {
				f := strings.Fields(ln)
				if len(f) < 2 || f[0] == "KILLED" {
					continue
				}
				nops++
				if !strings.Contains(ln, "INJECTED") {
					continue
				}
				switch act := f[len(f)-1]; {
				case strings.HasPrefix(act, "kill"):
					killed = true
				case strings.Contains(ln, "epoch") || strings.Contains(ln, "renameio-TempDir"):
					r.faulty = true // only the generation, or a probe for a place for temporary files
				case f[1] == "create" || f[1] == "mkdir" || f[1] == "rename": // may be made up for: the result counts
					r.faulty = true
					extra["soft"] = true
					extra["inj"] = f[1] + " " + filepath.Base(f[2])
				case strings.Contains("write,fsync", f[1]) || (s.Proc == "known" && strings.Contains("openr,read", f[1])):
					extra["injected"] = true
					extra["inj"] = f[1] + " " + filepath.Base(f[2])
				default:
					r.faulty = true
				}
			}
			p.rmu.Lock()
			p.Ks["fs:"+name] = nops
			p.rmu.Unlock()
		}
	}
	if !killed && code < 0 { // died of a signal of its own making (a fatal log message)
		code = 134
	}
	if killed {
		p.rmu.Lock()
		p.Kills++
		p.rmu.Unlock()
		code = -1
	}
	if code != 0 && !killed {
		extra["msg"] = lastErr(Tail(pr.Out, 40))
	}
	p.P.Lock()
	p.observe(r.name, true)
	if s.Proc == "known" {
		p.emit(p.knownOutputs(r, "end"))
	}
	p.P.Unlock()
	p.end(r, code, killed, extra)
}

func lastErr(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "F") || strings.HasPrefix(l, "E") {
			if len(l) > 200 {
				l = l[:200]
			}
			return l
		}
	}
	return ""
}

func (p *Pipe) knownOutputs(r *run, when string) Event {
	kdir, clog := r.kdir, r.clog
	evs := []Event{}
	ents, _ := os.ReadDir(kdir)
	for _, f := range ents {
		data, err := os.ReadFile(filepath.Join(kdir, f.Name()))
		if err != nil {
			continue
		}
		secs, ok, why := ParseSections(data)
		iss, known := p.idIss[f.Name()]
		if !known {
			iss = "?" + f.Name()
		}
		var out []Event = []Event{}
		dup := false
		for _, s := range secs {
			uniq := map[string]bool{}
			for _, x := range s.Serials {
				uniq[x] = true
			}
			if len(uniq) != len(s.Serials) {
				dup = true
			}
			// the section is named by its expiry instant; several bins (hour and
			// day granular) of one issuer may share it
			bs := []string{}
			for _, b := range p.Sc.Bins {
				if b.Issuer == iss && p.binExp[b.ID].Unix() == s.Exp {
					bs = append(bs, b.ID)
				}
			}
			out = append(out, Event{"bins": bs, "s": strs(keysOf(uniq))})
		}
		evs = append(evs, Event{"iss": iss, "secs": out, "ok": ok, "dup": dup, "why": why})
	}
	data, err := os.ReadFile(clog)
	kc := Event{"ok": false, "logs": []Event{}}
	if err == nil {
		var ls []CoverLog
		if json.Unmarshal(data, &ls) == nil && len(data) > 0 {
			kc["ok"] = true
			sort.Slice(ls, func(i, j int) bool { return ls[i].ShortURL < ls[j].ShortURL })
			o := []Event{}
			for _, c := range ls {
				o = append(o, p.logRec(c))
			}
			kc["logs"] = o
		}
	}
	return Event{"ev": "KnownOut", "by": r.name, "when": when, "lists": evs, "cover": kc}
}
