package lab

import (
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/resp"
)

// ---- scenario ---------------------------------------------------------

type FScenario struct {
	ID     string   `json:"id"`
	Batch  int      `json:"batch"`
	Logs   []*FLog  `json:"logs"`
	Remote string   `json:"remote"` // "", ok, err, garbage, nodata, down
	Steps  []*FStep `json:"steps"`
}

type FLog struct {
	ID     string   `json:"id"`
	Kind   string   `json:"kind"` // rfc, tiled
	Local  string   `json:"local"`
	Remote string   `json:"remote"`
	Kinds  []string `json:"kinds"` // certificate kinds, cyclic
	TS0    uint64   `json:"ts0"`
	Page   int      `json:"page"`
	MMD    int      `json:"mmd"`
	Slash  bool     `json:"slash"`
	Broken string   `json:"broken"` // status:N, reset, hang, garbage
}

type FStep struct {
	Op      string   `json:"op"`
	Log     string   `json:"log,omitempty"`
	N       int      `json:"n,omitempty"`
	At      []*FTrig `json:"at,omitempty"`
	Lies    []FLie   `json:"lies,omitempty"`
	Forever bool     `json:"forever,omitempty"`
	Text    string   `json:"text,omitempty"`
	Env     []string `json:"env,omitempty"`
}

// FTrig acts on the N-th (and Cnt-1 further) events of class C within a run.
type FTrig struct {
	C   string `json:"c"`
	N   int    `json:"n"`
	Cnt int    `json:"cnt"`
	Act string `json:"act"`
}

// ---- runner -----------------------------------------------------------

type Fetch struct {
	Sc      *FScenario
	R       *Redis
	P       *resp.Proxy
	Work    string
	Dir     string
	Tmp     string
	Bindir  string
	Events  []Event
	Classes map[string]int
	Fired   int
	Kills   int
	Cmds    int
	Err     error

	pool      *certPool
	logs      map[string]*FakeLog
	spec      map[string]*FLog
	srv       *http.Server
	host      string
	rem       *httptest.Server
	memb      map[string]string // key NUL member -> log
	ids       map[string]map[int]bool
	reg       map[string]bool
	pend      map[string]map[int]bool
	mu        sync.Mutex // counters and process control
	proc      *Proc
	actor     *resp.Actor
	cnt       map[string]int
	trig      []*FTrig
	sig       bool
	killed    bool
	wfault    bool
	perpetual bool
	rfault    bool
	hfault    map[string]bool
	nrun      int
	flight    int
	saw       map[string]bool
}

func NewFetch(sc *FScenario, r *Redis, work, bin string) *Fetch {
	f := &Fetch{Sc: sc, R: r, Work: work, Bindir: bin, Classes: map[string]int{}, logs: map[string]*FakeLog{}, spec: map[string]*FLog{},
		memb: map[string]string{}, ids: map[string]map[int]bool{}, reg: map[string]bool{}, pend: map[string]map[int]bool{}}
	f.Dir, f.Tmp = filepath.Join(work, "db"), filepath.Join(work, "tmp")
	return f
}

func (f *Fetch) emit(e Event) {
	f.flush()
	f.Events = append(f.Events, e)
}

// flush turns the writes since the last event into one Store event per log.
func (f *Fetch) flush() {
	var ls []string
	for l := range f.pend {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		ids := []int{}
		for i := range f.pend[l] {
			ids = append(ids, i)
		}
		sort.Ints(ids)
		f.Events = append(f.Events, Event{"ev": "Store", "log": l, "ids": ids})
	}
	f.pend = map[string]map[int]bool{}
}

// register makes the place where a leaf has to be stored known, once it has been served.
func (f *Fetch) register(l *FakeLog, id int) {
	rk := fmt.Sprint(l.ID, "/", id)
	if f.reg[rk] || id < 0 {
		return
	}
	f.reg[rk] = true
	lf := l.leaf(id)
	if id >= 100000 {
		f.emit(Event{"ev": "Var", "log": l.ID, "x": id, "ts": lf.ts, "unst": lf.junk || lf.kind.Issuer == ""})
	}
	if lf.junk || lf.kind.Issuer == "" {
		return
	}
	k := "serials::" + lf.kind.Hour + "::" + lf.kind.Issuer + "\x00" + f.member(l, lf)
	f.memb[k] = l.ID
	if f.ids[k] == nil {
		f.ids[k] = map[int]bool{}
	}
	f.ids[k][id] = true
}

func (f *Fetch) member(l *FakeLog, lf fleaf) string {
	b := binary.LittleEndian.AppendUint64(nil, lf.ts)
	b = append(b, l.LogID[:]...)
	return string(append(b, lf.kind.Serial...))
}

func (f *Fetch) Run() {
	defer func() {
		if x := recover(); x != nil {
			f.Err = fmt.Errorf("panic: %v", x)
		}
		f.stop()
	}()
	f.Err = f.run()
}

var poolMu sync.Mutex

func (f *Fetch) run() error {
	poolMu.Lock()
	if thePool == nil {
		thePool = newCertPool()
	}
	f.pool = thePool
	poolMu.Unlock()
	os.MkdirAll(f.Tmp, 0755)
	os.MkdirAll(f.Dir, 0755)
	f.R.Do("FLUSHALL")
	f.P = resp.New(f.R.Addr)
	f.P.Pre = f.pre
	f.P.Done = f.done
	f.P.Post = f.post
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	f.host = ln.Addr().String()
	f.srv = &http.Server{Handler: http.HandlerFunc(f.http)}
	go f.srv.Serve(ln)
	logs := []Event{}
	for _, s := range f.Sc.Logs {
		l := NewFakeLog(s.ID, s.Kind == "tiled", f.pool)
		l.Page = s.Page
		l.STHTS = s.TS0
		f.logs[s.ID], f.spec[s.ID] = l, s
		must, may := f.enrolled(s)
		logs = append(logs, Event{"id": s.ID, "kind": s.Kind, "must": must, "may": may, "broken": s.Broken != ""})
	}
	if f.Sc.Remote != "" {
		if err := f.startRemote(); err != nil {
			return err
		}
	}
	f.emit(Event{"ev": "Reset", "id": f.Sc.ID, "logs": logs, "batch": f.Sc.Batch})
	for _, s := range f.Sc.Steps {
		if err := f.step(s); err != nil {
			return err
		}
	}
	f.emit(Event{"ev": "Finish"})
	return nil
}

// enrolled: must be fetched, may be fetched.
func (f *Fetch) enrolled(s *FLog) (bool, bool) {
	loc := s.Local == "yes"
	if f.Sc.Remote != "ok" {
		return loc, loc
	}
	switch s.Remote {
	case "yes":
		return true, true
	case "no":
		return false, loc
	}
	return loc, loc
}

func (f *Fetch) stop() {
	if f.proc != nil && !f.proc.Exited() {
		f.proc.Kill()
		f.proc.Wait(5 * time.Second)
	}
	if f.srv != nil {
		f.srv.Close()
	}
	if f.rem != nil {
		f.rem.Close()
	}
}

func (f *Fetch) url(s *FLog) string {
	u := "http://" + f.host + "/" + s.ID
	if s.Slash {
		u += "/"
	}
	return u
}

func (f *Fetch) meta(s *FLog, enrolled bool) map[string]any {
	l := f.logs[s.ID]
	return map[string]any{"crlite_enrolled": enrolled, "description": s.ID, "key": b64(l.SPKI()), "logID": b64(l.LogID[:]), "mmd": s.MMD, "url": f.url(s), "tiled": s.Kind == "tiled"}
}

func (f *Fetch) startRemote() error {
	data := []any{}
	for _, s := range f.Sc.Logs {
		if s.Remote != "" {
			data = append(data, f.meta(s, s.Remote == "yes"))
		}
	}
	f.rem = httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if !strings.HasSuffix(r.URL.Path, "buckets/security-state/collections/ct-logs/records") {
			w.WriteHeader(404)
			return
		}
		switch f.Sc.Remote {
		case "err":
			w.WriteHeader(503)
			io.WriteString(w, `{"data":[]}`)
		case "garbage":
			io.WriteString(w, "<html>")
		case "nodata":
			io.WriteString(w, "{}")
		default:
			json.NewEncoder(w).Encode(map[string]any{"data": data})
		}
	}))
	f.rem.Config.ErrorLog = nil
	c := f.rem.Certificate()
	if err := os.WriteFile(filepath.Join(f.Work, "ca.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.Raw}), 0644); err != nil {
		return err
	}
	_ = tls.VersionTLS12
	_ = x509.NewCertPool
	return nil
}

// ---- steps ------------------------------------------------------------

func (f *Fetch) step(s *FStep) error {
	switch s.Op {
	case "grow":
		f.P.Lock()
		f.grow(s.Log, s.N)
		f.P.Unlock()
	case "lie":
		f.P.Lock()
		f.logs[s.Log].Lies = s.Lies
		f.P.Unlock()
	case "stale":
		f.P.Lock()
		f.logs[s.Log].Stale = s.N
		f.P.Unlock()
	case "page":
		f.P.Lock()
		f.logs[s.Log].Page = s.N
		f.P.Unlock()
	case "sthts":
		f.P.Lock()
		f.logs[s.Log].STHTS += uint64(s.N)
		f.P.Unlock()
	case "age":
		f.age()
	case "run":
		return f.fetch(s)
	case "commit":
		return f.commit()
	case "flush":
		f.P.Lock()
		f.R.Do("FLUSHALL")
		f.emit(Event{"ev": "Flush"})
		f.P.Unlock()
	case "settle":
		return f.settle(s)
	case "oldkey": // as an older version would have named it
		f.P.Lock()
		for _, k := range f.R.Do("KEYS", "log::*").Arr {
			if f.logOf(k.Str) == s.Log {
				f.R.Do("RENAME", k.Str, k.Str+"/")
			}
		}
		f.P.Unlock()
	default:
		return fmt.Errorf("unknown step %q", s.Op)
	}
	return nil
}

func (f *Fetch) grow(log string, n int) {
	l, s := f.logs[log], f.spec[log]
	ts, unst := []uint64{}, []bool{}
	for i := 0; i < n; i++ {
		idx := len(l.Leafs)
		k := f.pool.Kinds[s.Kinds[idx%len(s.Kinds)]]
		if k == nil {
			panic("no such kind " + s.Kinds[idx%len(s.Kinds)])
		}
		t := s.TS0 + uint64(idx)*10
		if idx%3 == 1 { // logs are not sorted by time
			t -= 25
		}
		if idx%7 == 5 {
			t += 41
		}
		l.Leafs = append(l.Leafs, fleaf{kind: k, ts: t, idx: idx})
		ts, unst = append(ts, t), append(unst, k.Issuer == "")
	}
	l.STHTS = s.TS0 + uint64(len(l.Leafs))*10 + 100
	f.emit(Event{"ev": "Grow", "log": log, "ts": ts, "unst": unst})
}

// age makes the last update of every log look old.
func (f *Fetch) age() {
	f.P.Lock()
	defer f.P.Unlock()
	for _, k := range f.R.Do("KEYS", "log::*").Arr {
		v := f.R.Do("GET", k.Str).Str
		var m map[string]any
		d := json.NewDecoder(strings.NewReader(v))
		d.UseNumber()
		if d.Decode(&m) != nil {
			continue
		}
		t, err := time.Parse(time.RFC3339Nano, fmt.Sprint(m["LastUpdateTime"]))
		if err != nil || t.IsZero() || time.Since(t) > 15*time.Minute {
			continue
		}
		m["LastUpdateTime"] = time.Now().Add(-11 * time.Minute)
		b, _ := json.Marshal(m)
		f.R.Do("SET", k.Str, string(b))
	}
}

func (f *Fetch) env(s *FStep) []string {
	loc := []any{}
	for _, x := range f.Sc.Logs {
		if x.Local != "" {
			loc = append(loc, f.meta(x, x.Local == "yes"))
		}
	}
	e := []string{"redisHost=" + f.actor.Addr(), "redisTimeout=3s", "certPath=" + f.Dir, "batchSize=" + strconv.Itoa(f.Sc.Batch), "pollingDelay=0", "healthAddr=127.0.0.1:0"}
	if len(loc) > 0 {
		b, _ := json.Marshal(loc)
		e = append(e, "ctLogMetadata="+string(b))
	}
	if f.Sc.Remote != "" {
		u := f.rem.URL + "/v1/"
		if f.Sc.Remote == "down" {
			u = "https://127.0.0.1:1/v1/"
		}
		e = append(e, "remoteSettingsURL="+u, "SSL_CERT_FILE="+filepath.Join(f.Work, "ca.pem"))
	}
	if s.Forever {
		e = append(e, "runForever=true", "pollingDelay=1")
	}
	return BaseEnv(f.Tmp, append(e, s.Env...)...)
}

func treeHash(dir string) string {
	h := sha256.New()
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		fmt.Fprintf(h, "%s %v\n", p, i.Mode())
		if i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(h, "%d\n", len(b))
			h.Write(b)
		}
		return nil
	})
	return fmt.Sprintf("%x", h.Sum(nil))
}

func (f *Fetch) start(bin string, s *FStep) error {
	f.mu.Lock()
	f.nrun++
	f.mu.Unlock()
	a, err := f.P.NewActor(fmt.Sprintf("%s%d", bin, f.nrun))
	if err != nil {
		return err
	}
	f.mu.Lock()
	f.actor = a
	f.cnt, f.trig = map[string]int{}, s.At
	f.sig, f.killed, f.wfault, f.rfault, f.hfault, f.saw = false, false, false, false, map[string]bool{}, map[string]bool{}
	f.mu.Unlock()
	return nil
}

func (f *Fetch) fetch(s *FStep) error {
	if err := f.start("ct-fetch", s); err != nil {
		return err
	}
	before := treeHash(f.Dir)
	f.P.Lock()
	f.perpetual = s.Forever
	f.emit(Event{"ev": "Begin", "kind": "fetch", "single": !s.Forever})
	f.P.Unlock()
	lg := filepath.Join(f.Work, fmt.Sprintf("fetch%d.log", f.nrun))
	f.mu.Lock()
	p, err := StartProc([]string{f.Bindir + "/ct-fetch", "-logtostderr"}, f.env(s), f.Work, lg)
	f.proc = p
	f.mu.Unlock()
	if err != nil {
		return err
	}
	if s.Forever {
		f.forever(p)
	}
	ok := p.Wait(75 * time.Second)
	return f.ended(p, ok, before, lg, !s.Forever)
}

func (f *Fetch) ended(p *Proc, ok bool, before, lg string, single bool) error {
	f.actor.Close()
	for i := 0; i < 3000; i++ { // requests of this run must not be taken for the next one's
		f.mu.Lock()
		n := f.flight
		f.mu.Unlock()
		if n == 0 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	f.P.Lock()
	defer f.P.Unlock()
	f.Cmds += f.actor.Count()
	out, _ := os.ReadFile(lg)
	faulty := []string{}
	for l := range f.hfault {
		faulty = append(faulty, l)
	}
	sort.Strings(faulty)
	for _, l := range f.Sc.Logs {
		if (l.Broken != "" || len(f.logs[l.ID].Lies) > 0) && !f.hfault[l.ID] {
			faulty = append(faulty, l.ID)
		}
	}
	f.emit(Event{"ev": "End", "single": single, "code": p.Code, "killed": f.killed, "sig": f.sig, "hang": !ok && !f.killed, "panic": strings.Contains(string(out), "\npanic: ") || strings.Contains(string(out), "fatal error: "),
		"wfault": f.wfault, "rfault": f.rfault, "hfault": faulty, "fssame": treeHash(f.Dir) == before})
	return nil
}

// forever: lets the process run until nothing changes any more, then asks it to stop.
func (f *Fetch) forever(p *Proc) {
	last, since := "", time.Now()
	t0 := time.Now()
	var aged time.Time
	for time.Since(t0) < 100*time.Second && !p.Exited() {
		time.Sleep(300 * time.Millisecond)
		// a fetcher that cannot write downloads the same entries again and again: not faster than needed
		if !f.wfault || time.Since(aged) > 8*time.Second {
			f.age()
			aged = time.Now()
		}
		f.P.Lock()
		st := f.position()
		f.P.Unlock()
		f.mu.Lock()
		idle := true
		for _, t := range f.trig {
			if t.N >= 0 && !strings.HasPrefix(t.Act, "grow") && !t.spent(f.cnt) {
				idle = false
			}
		}
		f.mu.Unlock()
		if st != last || !idle && time.Since(t0) < 50*time.Second {
			last, since = st, time.Now()
		}
		// after a failed write the next attempt is up to 30 s away
		quiet := 4 * time.Second
		if f.wfault && !f.complete() {
			quiet = 36 * time.Second
		}
		if time.Since(since) > quiet {
			break
		}
	}
	f.P.Lock()
	if !p.Exited() {
		f.quiet()
	} else {
		f.emit(Event{"ev": "Died", "wf": f.wfault})
	}
	f.P.Unlock()
	f.mu.Lock()
	f.sig = true
	f.mu.Unlock()
	p.Signal(syscall.SIGTERM)
}

// complete is only used to stop waiting early.
func (f *Fetch) complete() bool {
	f.P.Lock()
	defer f.P.Unlock()
	for _, s := range f.Sc.Logs {
		if m, _ := f.enrolled(s); !m || s.Broken != "" {
			continue
		}
		v := f.R.Do("GET", "log::"+f.host+"/"+s.ID).Str
		var st struct{ MinEntry, MaxEntry int }
		json.Unmarshal([]byte(v), &st)
		if st.MinEntry != 0 || st.MaxEntry != len(f.logs[s.ID].Leafs)-1 {
			return false
		}
	}
	return true
}

func (t *FTrig) spent(cnt map[string]int) bool { return cnt[t.C] >= t.N+max(0, t.Cnt-1) }

func (f *Fetch) position() string {
	var b strings.Builder
	ks := f.R.Do("KEYS", "*").Arr
	var keys []string
	for _, k := range ks {
		keys = append(keys, k.Str)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, "log::") {
			var m map[string]any
			json.Unmarshal([]byte(f.R.Do("GET", k).Str), &m)
			delete(m, "LastUpdateTime")
			j, _ := json.Marshal(m)
			fmt.Fprintf(&b, "%s=%s;", k, j)
		} else if strings.HasPrefix(k, "serials::") {
			fmt.Fprintf(&b, "%s#%s;", k, f.R.Do("SCARD", k).Str)
		}
	}
	return b.String()
}

func (f *Fetch) quiet() {
	for _, s := range f.Sc.Logs {
		l := f.logs[s.ID]
		f.emit(Event{"ev": "Quiet", "log": s.ID, "honest": len(l.Lies) == 0 && s.Broken == "" && l.Stale == 0, "wf": f.wfault})
	}
}

// settle repeats passes until nothing changes.
func (f *Fetch) settle(s *FStep) error {
	same, last := 0, "?"
	for i := 0; i < 60 && same < 3; i++ {
		f.age()
		if err := f.fetch(&FStep{Env: s.Env}); err != nil {
			return err
		}
		if f.killed || f.proc.Code != 0 {
			break
		}
		st := f.position()
		if st == last {
			same++
		} else {
			same, last = 0, st
		}
	}
	f.P.Lock()
	f.quiet()
	f.P.Unlock()
	return nil
}

// commit moves covered entries to storage, with the real program.
func (f *Fetch) commit() error {
	if err := f.start("commit", &FStep{}); err != nil {
		return err
	}
	f.P.Lock()
	f.emit(Event{"ev": "Begin", "kind": "commit", "single": true})
	f.P.Unlock()
	lg := filepath.Join(f.Work, fmt.Sprintf("commit%d.log", f.nrun))
	f.mu.Lock()
	p, err := StartProc([]string{f.Bindir + "/commit", "-logtostderr"}, f.env(&FStep{}), f.Work, lg)
	f.proc = p
	f.mu.Unlock()
	if err != nil {
		return err
	}
	if !p.Wait(60 * time.Second) {
		return fmt.Errorf("commit does not end: %s", Tail(lg, 5))
	}
	f.actor.Close()
	f.P.Lock()
	f.emit(Event{"ev": "CommitEnd"})
	f.P.Unlock()
	return nil
}

// ---- triggers ---------------------------------------------------------

// hit counts an event of the given classes and returns the actions due.
func (f *Fetch) hit(classes ...string) []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	var acts []string
	for _, c := range classes {
		f.cnt[c]++
		f.Classes[strings.SplitN(c, ":", 2)[0]]++
		for _, t := range f.trig {
			if t.C == c && f.cnt[c] >= t.N && f.cnt[c] <= t.N+max(0, t.Cnt-1) {
				acts = append(acts, t.Act)
				f.Fired++
			}
		}
	}
	return acts
}

func (f *Fetch) kill() {
	f.mu.Lock()
	f.killed = true
	f.Kills++
	p, a := f.proc, f.actor
	f.mu.Unlock()
	p.Kill()
	a.Close()
}

// act performs what can be done before the event; the rest is returned.
func (f *Fetch) act(acts []string, locked bool) (rest []string) {
	for _, a := range acts {
		name, arg, _ := strings.Cut(a, ":")
		switch name {
		case "kill":
			f.kill()
			rest = append(rest, a)
		case "term", "int":
			f.mu.Lock()
			f.sig = true
			p := f.proc
			f.mu.Unlock()
			if name == "int" {
				p.Signal(syscall.SIGINT)
			} else {
				p.Signal(syscall.SIGTERM)
			}
			time.Sleep(5 * time.Millisecond)
		case "later": // later:ACT:MS
			a, n, _ := strings.Cut(arg, ":")
			ms, _ := strconv.Atoi(n)
			f.mu.Lock()
			run := f.nrun
			f.mu.Unlock()
			time.AfterFunc(time.Duration(ms)*time.Millisecond, func() {
				f.mu.Lock()
				same := run == f.nrun && !f.killed && !f.proc.Exited()
				f.mu.Unlock()
				if same {
					f.act([]string{a}, false)
				}
			})
		case "delay":
			ms, _ := strconv.Atoi(arg)
			time.Sleep(time.Duration(ms) * time.Millisecond)
		case "grow":
			l, n, _ := strings.Cut(arg, ":")
			k, _ := strconv.Atoi(n)
			f.P.Lock()
			f.grow(l, k)
			f.P.Unlock()
		case "lie":
			l, k, _ := strings.Cut(arg, ":")
			f.mu.Lock()
			f.hfault[l] = true
			f.mu.Unlock()
			f.P.Lock()
			f.logs[l].Lies = nil
			if k != "" {
				kind, i, _ := strings.Cut(k, ":")
				n, _ := strconv.Atoi(i)
				f.logs[l].Lies = []FLie{{Kind: kind, I: n}}
			}
			f.P.Unlock()
		case "page":
			l, n, _ := strings.Cut(arg, ":")
			k, _ := strconv.Atoi(n)
			f.P.Lock()
			f.logs[l].Page = k
			f.P.Unlock()
		default:
			rest = append(rest, a)
		}
	}
	return rest
}

func cmdClass(c resp.Cmd) []string {
	cl := []string{"cmd"}
	switch c.Name() {
	case "SADD", "EXPIREAT":
		cl = append(cl, strings.ToLower(c.Name()))
	case "SET", "GET":
		if len(c.Args) > 1 && strings.HasPrefix(c.Args[1], "log::") {
			cl = append(cl, strings.ToLower(c.Name()))
		} else {
			cl = append(cl, strings.ToLower(c.Name())+"x")
		}
	default:
		cl = append(cl, strings.ToLower(c.Name()))
	}
	return cl
}

func (f *Fetch) pre(c resp.Cmd) resp.Verdict {
	if strings.HasPrefix(c.Actor, "commit") {
		return resp.Verdict{}
	}
	var v resp.Verdict
	for _, a := range f.act(f.hit(cmdClass(c)...), false) {
		name, arg, _ := strings.Cut(a, ":")
		fault := true
		switch name {
		case "kill":
			v.DropPre = true
			fault = false
		case "killpost":
			fault = false
			f.mu.Lock()
			f.saw[fmt.Sprint(c.K)] = true
			f.mu.Unlock()
		case "err":
			v.Err = arg
		case "drop":
			v.DropPre = true
		case "droppost":
			v.DropPost = true
		default:
			fault = false
		}
		if fault {
			f.mu.Lock()
			if IsRead(c.Name()) {
				f.rfault = true
			} else {
				f.wfault = true
			}
			f.mu.Unlock()
		}
	}
	return v
}

func (f *Fetch) post(c resp.Cmd, r resp.Reply) {
	f.mu.Lock()
	k := f.saw[fmt.Sprint(c.K)]
	f.mu.Unlock()
	if k && !strings.HasPrefix(c.Actor, "commit") {
		f.kill()
	}
}

// done runs under the order lock, right after the server executed the command.
func (f *Fetch) done(c resp.Cmd, r resp.Reply, v resp.Verdict) {
	if v.Err != "" || r.Kind == '-' {
		return
	}
	switch c.Name() {
	case "SADD":
		for _, m := range c.Args[2:] {
			k := c.Args[1] + "\x00" + m
			if l, ok := f.memb[k]; ok {
				if f.pend[l] == nil {
					f.pend[l] = map[int]bool{}
				}
				for i := range f.ids[k] {
					f.pend[l][i] = true
				}
			} else {
				f.emit(Event{"ev": "BadStore", "what": f.describe(c.Args[1], m)})
			}
		}
	case "SREM":
		gone := map[string][]int{}
		for _, m := range c.Args[2:] {
			k := c.Args[1] + "\x00" + m
			if l, ok := f.memb[k]; ok {
				for i := range f.ids[k] {
					gone[l] = append(gone[l], i)
				}
			}
		}
		for l, ids := range gone {
			sort.Ints(ids)
			if strings.HasPrefix(c.Actor, "commit") {
				f.emit(Event{"ev": "Moved", "log": l, "ids": ids})
			} else {
				f.emit(Event{"ev": "BadStore", "what": "the fetcher removes entries"})
			}
		}
	case "SET":
		if strings.HasPrefix(c.Args[1], "log::") {
			f.emit(f.save(c.Args[1], c.Args[2]))
		}
	case "DEL", "UNLINK", "FLUSHALL", "FLUSHDB", "RENAME", "PERSIST", "PEXPIREAT", "EXPIRE", "PEXPIRE", "SMOVE", "SPOP", "SETEX", "SETNX", "INCR":
		for _, k := range c.Args[1:] {
			if strings.HasPrefix(k, "log::") && !strings.HasSuffix(k, "/") {
				f.emit(Event{"ev": "DelLog", "log": f.logOf(k)})
			} else if strings.HasPrefix(k, "serials::") && c.Name() != "PEXPIREAT" {
				f.emit(Event{"ev": "BadStore", "what": c.Name() + " of " + k})
			}
		}
	}
}

func (f *Fetch) logOf(key string) string {
	u := strings.TrimPrefix(key, "log::")
	for _, s := range f.Sc.Logs {
		if u == f.host+"/"+s.ID {
			return s.ID
		}
	}
	return "?" + u
}

func (f *Fetch) save(key, val string) Event {
	var st struct {
		LogID                                               string
		MMD, MinEntry, MaxEntry, MinTimestamp, MaxTimestamp uint64
		ShortURL                                            string
		LastUpdateTime                                      time.Time
	}
	if err := json.Unmarshal([]byte(val), &st); err != nil {
		return Event{"ev": "BadStore", "what": "unreadable log state"}
	}
	id := f.logOf(key)
	meta := id[0] != '?'
	if meta {
		meta = st.LogID == b64(f.logs[id].LogID[:]) && st.MMD == uint64(f.spec[id].MMD)
	}
	const big = 2147480000
	return Event{"ev": "Save", "log": id, "r": Event{"min": min(st.MinEntry, big), "max": min(st.MaxEntry, big), "mints": min(st.MinTimestamp, big), "maxts": min(st.MaxTimestamp, big), "has": !st.LastUpdateTime.IsZero()}, "meta": meta}
}

func (f *Fetch) describe(key, m string) string {
	s := key
	if len(m) >= 40 {
		l := "an unknown log"
		for id, x := range f.logs {
			if string(x.LogID[:]) == m[8:40] {
				l = id
			}
		}
		s += fmt.Sprintf(" ts=%d log=%s serial=%x", binary.LittleEndian.Uint64([]byte(m[:8])), l, m[40:])
	}
	for n, k := range f.pool.Kinds {
		if len(m) > 40 && string(k.Serial) == m[40:] {
			s += " (kind " + n + ")"
		}
	}
	return s
}

// ---- HTTP -------------------------------------------------------------

func httpClass(path string) string {
	switch {
	case path == "ct/v1/get-sth" || path == "checkpoint":
		return "sth"
	case path == "ct/v1/get-sth-consistency":
		return "proof"
	case path == "ct/v1/get-entries" || strings.HasPrefix(path, "tile/data/"):
		return "ents"
	case strings.HasPrefix(path, "issuer/"):
		return "issuer"
	}
	return "tile"
}

func (f *Fetch) http(w http.ResponseWriter, r *http.Request) {
	f.mu.Lock()
	f.flight++
	f.mu.Unlock()
	defer func() {
		f.mu.Lock()
		f.flight--
		f.mu.Unlock()
	}()
	id, path, _ := strings.Cut(strings.TrimPrefix(r.URL.Path, "/"), "/")
	l := f.logs[id]
	if l == nil {
		w.WriteHeader(404)
		return
	}
	f.P.Lock()
	if f.proc != nil && !f.isKilled() {
		if k := id; !f.sawLog(k) {
			f.emit(Event{"ev": "Contact", "log": k})
		}
	}
	f.P.Unlock()
	q := map[string]string{}
	for k := range r.URL.Query() {
		q[k] = r.URL.Query().Get(k)
	}
	cl := httpClass(path)
	if cl == "sth" {
		// a fetcher that runs forever and cannot write downloads the same entries again and again
		f.P.Lock()
		slow := f.perpetual && f.wfault
		f.P.Unlock()
		if slow {
			time.Sleep(250 * time.Millisecond)
		}
	}
	acts := f.act(f.hit("http", cl, cl+":"+id), false)
	if b := f.spec[id].Broken; b != "" {
		acts = append(acts, b)
	}
	fault := ""
	post := false
	for _, a := range acts {
		name, _, _ := strings.Cut(a, ":")
		switch name {
		case "kill":
			return
		case "killpost":
			post = true
		case "status", "reset", "hang", "garbage", "empty", "trunc":
			fault = a
			if name == "trunc" && strings.HasPrefix(path, "tile/data/") {
				fault = "garbage" // a cut tile still has good entries: that is the lie tiletrunc
			}
			f.mu.Lock()
			f.hfault[id] = true
			f.mu.Unlock()
		}
	}
	if f.isKilled() {
		return
	}
	if post {
		f.kill()
	}
	name, arg, _ := strings.Cut(fault, ":")
	switch name {
	case "status":
		c, _ := strconv.Atoi(arg)
		w.Header().Set("Retry-After", "0")
		w.WriteHeader(c)
		io.WriteString(w, "no")
		return
	case "reset":
		if h, ok := w.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				c.Close()
			}
		}
		return
	case "hang":
		select {
		case <-r.Context().Done():
		case <-time.After(14 * time.Second):
		}
		return
	case "garbage":
		io.WriteString(w, "{<html>not what you want</html>")
		return
	}
	f.P.Lock()
	if f.isKilled() && !post {
		f.P.Unlock()
		return
	}
	code, body, ev := l.serve(path, q)
	if code == 200 && ev != nil && fault == "" {
		if ev["ev"] == "Ents" {
			for _, i := range ev["ids"].([]int) {
				f.register(l, i)
			}
		}
		f.emit(ev)
	}
	f.P.Unlock()
	switch name {
	case "empty":
		body = nil
	case "trunc":
		body = body[:len(body)/2]
	}
	if code == 200 && cl != "issuer" && cl != "tile" && l.Tiled == false {
		w.Header().Set("Content-Type", "application/json")
	}
	w.WriteHeader(code)
	w.Write(body)
}

func (f *Fetch) isKilled() bool { f.mu.Lock(); defer f.mu.Unlock(); return f.killed }

func (f *Fetch) sawLog(id string) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	k := "contact:" + id
	if f.saw[k] {
		return true
	}
	f.saw[k] = true
	return false
}

var _ = rand.Int
