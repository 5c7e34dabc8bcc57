package lab

import (
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/bits"
	"strconv"
	"strings"

	"filippo.io/sunlight"
	ct "github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/tls"
	"golang.org/x/mod/sumdb/tlog"
)

// FakeLog serves a log of either kind. A leaf is a number: index i honestly
// has leaf i; leaves from 100000 up are variants made for a lie.
type FakeLog struct {
	ID    string
	Tiled bool
	Key   *ecdsa.PrivateKey
	LogID [32]byte
	Leafs []fleaf
	Vars  map[int]fleaf
	Page  int // most entries per answer (0: all)
	STHTS uint64
	Pool  *certPool
	Stale int // a tree head this much older than the newest
	Lies  []FLie
	lhash map[int][32]byte
	nvar  int
	vkey  map[string]int
}

type fleaf struct {
	kind *LeafKind
	ts   uint64
	idx  int // encoded leaf index (tiled)
	junk bool
}

type FLie struct {
	Kind string `json:"kind"`
	I    int    `json:"i"`
	J    int    `json:"j"`
}

func NewFakeLog(id string, tiled bool, pool *certPool) *FakeLog {
	l := &FakeLog{ID: id, Tiled: tiled, Key: newKey(), Pool: pool, Vars: map[int]fleaf{}, lhash: map[int][32]byte{}, vkey: map[string]int{}}
	l.LogID = sha256.Sum256(l.SPKI())
	return l
}

func (l *FakeLog) SPKI() []byte { return must(x509.MarshalPKIXPublicKey(&l.Key.PublicKey)) }

func (l *FakeLog) leaf(id int) fleaf {
	if id < len(l.Leafs) {
		return l.Leafs[id]
	}
	return l.Vars[id]
}

// variant makes (once) a leaf that the log does not contain.
func (l *FakeLog) variant(name string, f fleaf) int {
	if v, ok := l.vkey[name]; ok {
		return v
	}
	l.nvar++
	id := 100000 + l.nvar
	l.Vars[id] = f
	l.vkey[name] = id
	return id
}

func (l *FakeLog) lie(kind string) (FLie, bool) {
	for _, x := range l.Lies {
		if x.Kind == kind {
			return x, true
		}
	}
	return FLie{}, false
}

// served is the leaf the log presents at an index, and whether the answer goes on.
func (l *FakeLog) at(i int) int {
	for _, x := range l.Lies {
		switch x.Kind {
		case "alterts":
			if i == x.I {
				f := l.Leafs[i]
				f.ts += 7
				return l.variant(fmt.Sprint("ts", i), f)
			}
		case "altercert":
			if i == x.I {
				f := l.Leafs[i]
				f.kind = l.Pool.Kinds["long"]
				if l.Leafs[i].kind == f.kind {
					f.kind = l.Pool.Kinds["hibit"]
				}
				return l.variant(fmt.Sprint("cert", i), f)
			}
		case "dup": // the entry before is repeated
			if i == x.I && i > 0 {
				return i - 1
			}
		case "swap":
			if i == x.I && i+1 < len(l.Leafs) {
				return i + 1
			}
			if i == x.I+1 {
				return i - 1
			}
		case "missing": // everything from I moves down by one
			if i >= x.I && i+1 < len(l.Leafs) {
				return i + 1
			}
		case "insert": // an extra entry; the rest moves up
			if i == x.I {
				return l.variant("ins", fleaf{kind: l.Pool.Kinds["long"], ts: 1234, idx: i})
			}
			if i > x.I {
				return i - 1
			}
		case "junk":
			if i == x.I {
				return l.variant(fmt.Sprint("junk", i), fleaf{junk: true})
			}
		}
	}
	return i
}

// committed is the leaf that hashes in proofs and tree heads stand for.
func (l *FakeLog) committed(i int) int {
	for _, x := range l.Lies {
		if x.Kind == "rootalt" && i == x.I {
			f := l.Leafs[i]
			f.ts += 3
			return l.variant(fmt.Sprint("alt", i), f)
		}
		if x.Kind == "fork" && i == x.I { // a different but consistent tree
			return l.at(i)
		}
	}
	return i
}

func (l *FakeLog) entry(id int) (leafInput, extra []byte) {
	f := l.leaf(id)
	if f.junk {
		return []byte("this is not a leaf"), nil
	}
	k := f.kind
	m := ct.MerkleTreeLeaf{Version: ct.V1, LeafType: ct.TimestampedEntryLeafType, TimestampedEntry: &ct.TimestampedEntry{Timestamp: f.ts}}
	chain := make([]ct.ASN1Cert, len(k.Chain))
	for i, c := range k.Chain {
		chain[i] = ct.ASN1Cert{Data: c}
	}
	if k.Precert {
		m.TimestampedEntry.EntryType = ct.PrecertLogEntryType
		m.TimestampedEntry.PrecertEntry = &ct.PreCert{IssuerKeyHash: k.IKH, TBSCertificate: k.TBS}
		extra = must(tls.Marshal(ct.PrecertChainEntry{PreCertificate: ct.ASN1Cert{Data: k.Cert}, CertificateChain: chain}))
	} else {
		m.TimestampedEntry.EntryType = ct.X509LogEntryType
		m.TimestampedEntry.X509Entry = &ct.ASN1Cert{Data: k.Cert}
		extra = must(tls.Marshal(ct.CertificateChain{Entries: chain}))
	}
	return must(tls.Marshal(m)), extra
}

func (l *FakeLog) tileEntry(id int) *sunlight.LogEntry {
	f := l.leaf(id)
	k := f.kind
	e := &sunlight.LogEntry{Timestamp: int64(f.ts), LeafIndex: int64(f.idx)}
	if k.Precert {
		e.IsPrecert, e.Certificate, e.PreCertificate, e.IssuerKeyHash = true, k.TBS, k.Cert, k.IKH
	} else {
		e.Certificate = k.Cert
	}
	for _, c := range k.Chain {
		e.ChainFingerprints = append(e.ChainFingerprints, sha256.Sum256(c))
	}
	return e
}

func (l *FakeLog) leafHash(id int) [32]byte {
	if h, ok := l.lhash[id]; ok {
		return h
	}
	var in []byte
	if l.Tiled && !l.leaf(id).junk {
		in = l.tileEntry(id).MerkleTreeLeaf()
	} else {
		in, _ = l.entry(id)
	}
	h := sha256.Sum256(append([]byte{0}, in...))
	l.lhash[id] = h
	return h
}

// mth is the Merkle tree hash of the committed leaves lo..hi-1 (RFC 6962, 2.1).
func (l *FakeLog) mth(lo, hi int) [32]byte { return l.mthOf(lo, hi, l.committed) }

func (l *FakeLog) mthOf(lo, hi int, leaf func(int) int) [32]byte {
	n := hi - lo
	if n == 0 {
		return sha256.Sum256(nil)
	}
	if n == 1 {
		return l.leafHash(leaf(lo))
	}
	k := 1 << (bits.Len(uint(n-1)) - 1)
	a, b := l.mthOf(lo, lo+k, leaf), l.mthOf(lo+k, hi, leaf)
	return sha256.Sum256(append(append([]byte{1}, a[:]...), b[:]...))
}

type proofTerm struct{ lo, hi int } // hi exclusive

// subproof is SUBPROOF(m, D[lo:hi], b) of RFC 6962, 2.1.2.
func subproof(m, lo, hi int, b bool) []proofTerm {
	n := hi - lo
	if m == n {
		if b {
			return nil
		}
		return []proofTerm{{lo, hi}}
	}
	k := 1 << (bits.Len(uint(n-1)) - 1)
	if m <= k {
		return append(subproof(m, lo, lo+k, b), proofTerm{lo + k, hi})
	}
	return append(subproof(m-k, lo+k, hi, false), proofTerm{lo, lo + k})
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// alts lists the indices of lo..hi-1 whose committed leaf is not the honest one.
func (l *FakeLog) alts(lo, hi int) []map[string]int {
	out := []map[string]int{}
	for i := lo; i < hi; i++ {
		if c := l.committed(i); c != i {
			out = append(out, map[string]int{"i": i, "x": c})
		}
	}
	return out
}

func (l *FakeLog) size() int {
	n := len(l.Leafs)
	if x, ok := l.lie("sthsmall"); ok {
		n = max(0, n-x.I)
	}
	if _, ok := l.lie("sthzero"); ok {
		n = 0
	}
	return n
}

// serve answers one request: status, body, and the event that describes it.
func (l *FakeLog) serve(path string, q map[string]string) (int, []byte, Event) {
	switch path {
	case "ct/v1/get-sth":
		n := l.size()
		h := l.mth(0, n)
		body, _ := json.Marshal(map[string]any{"tree_size": n, "timestamp": l.STHTS, "sha256_root_hash": b64(h[:]), "tree_head_signature": b64(must(tls.Marshal(l.sign([]byte("x")))))})
		return 200, body, Event{"ev": "Sth", "log": l.ID, "n": n, "ts": l.STHTS, "ok": true, "alt": []map[string]int{}}
	case "ct/v1/get-sth-consistency":
		m, _ := strconv.Atoi(q["first"])
		n, _ := strconv.Atoi(q["second"])
		if m <= 0 || n > len(l.Leafs) || m >= n {
			if m > 0 && m == n && n <= len(l.Leafs) {
				return 200, []byte(`{"consistency":[]}`), Event{"ev": "Proof", "log": l.ID, "terms": []any{}}
			}
			return 400, []byte(`bad request`), nil
		}
		ts := subproof(m, 0, n, true)
		var hs [][]byte
		terms := []map[string]any{}
		for i, t := range ts {
			h := l.mth(t.lo, t.hi)
			good := true
			for _, x := range l.Lies {
				if x.Kind == "proofbad" && x.I == i {
					h[5] ^= 0x40
					good = false
				}
				if x.Kind == "proofzero" && x.I == i {
					h = [32]byte{}
					good = false
				}
			}
			hs = append(hs, append([]byte{}, h[:]...))
			if good {
				terms = append(terms, map[string]any{"f": t.lo, "l": t.hi - 1, "alt": l.alts(t.lo, t.hi)})
			}
		}
		for _, x := range l.Lies {
			switch x.Kind {
			case "prooftrunc":
				if len(hs) > 0 {
					hs = hs[:len(hs)-1]
				}
				terms = []map[string]any{}
			case "proofextra":
				hs = append(hs, hs[0])
				terms = []map[string]any{}
			case "proofempty":
				hs = nil
				terms = []map[string]any{}
			case "proofswap":
				if len(hs) > 1 {
					hs[0], hs[1] = hs[1], hs[0]
					terms = terms[min(2, len(terms)):]
				}
			case "proofshort": // a hash of the wrong length
				hs[0] = hs[0][:31]
				terms = terms[min(1, len(terms)):]
			}
		}
		ss := make([]string, len(hs))
		for i := range hs {
			ss[i] = b64(hs[i])
		}
		body, _ := json.Marshal(map[string]any{"consistency": ss})
		return 200, body, Event{"ev": "Proof", "log": l.ID, "terms": terms}
	case "ct/v1/get-entries":
		a, _ := strconv.Atoi(q["start"])
		b, _ := strconv.Atoi(q["end"])
		if a < 0 || b < a || a >= len(l.Leafs) {
			return 400, []byte(`bad range`), nil
		}
		if b >= len(l.Leafs) {
			b = len(l.Leafs) - 1
		}
		if l.Page > 0 && b-a+1 > l.Page {
			b = a + l.Page - 1
		}
		ids := []int{}
		for i := a; i <= b; i++ {
			ids = append(ids, l.at(i))
		}
		for _, x := range l.Lies {
			switch x.Kind {
			case "surplus": // more entries than asked for
				for j := 0; j <= x.J; j++ {
					if i := b + 1 + j; i < len(l.Leafs) {
						ids = append(ids, i)
					} else {
						ids = append(ids, l.variant("sur", fleaf{kind: l.Pool.Kinds["long"], ts: 4321}))
					}
				}
			case "emptyents":
				ids = ids[:0]
			case "drop": // an entry is left out of the answer
				if x.I >= a && x.I <= b {
					k := x.I - a
					ids = append(ids[:k:k], ids[k+1:]...)
				}
			case "reverse":
				for i, j := 0, len(ids)-1; i < j; i, j = i+1, j-1 {
					ids[i], ids[j] = ids[j], ids[i]
				}
			}
		}
		es := make([]map[string]string, 0, len(ids))
		for _, id := range ids {
			li, ex := l.entry(id)
			es = append(es, map[string]string{"leaf_input": b64(li), "extra_data": b64(ex)})
		}
		body, _ := json.Marshal(map[string]any{"entries": es})
		return 200, body, Event{"ev": "Ents", "log": l.ID, "start": a, "ids": ids}
	case "checkpoint":
		return l.checkpoint()
	}
	if fp, ok := strings.CutPrefix(path, "issuer/"); ok {
		for k, v := range l.Pool.ByFP {
			if fmt.Sprintf("%x", k) == fp {
				return 200, v, nil
			}
		}
		return 404, []byte("no such issuer"), nil
	}
	if strings.HasPrefix(path, "tile/") {
		t, err := sunlight.ParseTilePath(path)
		if err != nil {
			return 404, nil, nil
		}
		return l.tile(t)
	}
	return 404, []byte("not found"), nil
}

func (l *FakeLog) sign(msg []byte) tls.DigitallySigned {
	h := sha256.Sum256(msg)
	return tls.DigitallySigned{Algorithm: tls.SignatureAndHashAlgorithm{Hash: tls.SHA256, Signature: tls.ECDSA}, Signature: must(ecdsa.SignASN1(rand.Reader, l.Key, h[:]))}
}

func (l *FakeLog) checkpoint() (int, []byte, Event) {
	n := l.size()
	root := l.mth(0, n)
	ok := true
	key := l.Key
	ts := l.STHTS
	signN, signTS := n, ts
	for _, x := range l.Lies {
		switch x.Kind {
		case "ckptkey":
			key, ok = newKey(), false
		case "ckptsize": // another size than the signed one
			signN, ok = max(0, n-1), false
		case "ckptts":
			signTS, ok = ts-1, false
		case "ckptroot": // signed root of nothing in particular
			root[3] ^= 1
		}
	}
	if l.Stale > 0 && n > l.Stale {
		n -= l.Stale
		root = l.mth(0, n)
		signN = n
	}
	in := must(ct.SerializeSTHSignatureInput(ct.SignedTreeHead{Version: ct.V1, TreeSize: uint64(signN), Timestamp: signTS, SHA256RootHash: root}))
	h := sha256.Sum256(in)
	sig := must(ecdsa.SignASN1(rand.Reader, key, h[:]))
	for _, x := range l.Lies {
		if x.Kind == "ckptsig" {
			sig[len(sig)-3] ^= 1
			ok = false
		}
	}
	origin := "fake.example/" + l.ID
	kh := sha256.Sum256(append([]byte(origin+"\n\x05"), l.LogID[:]...))
	var b []byte
	b = append(b, kh[:4]...)
	b = binary.BigEndian.AppendUint64(b, ts)
	b = append(b, 4, 3)
	b = binary.BigEndian.AppendUint16(b, uint16(len(sig)))
	b = append(b, sig...)
	text := fmt.Sprintf("%s\n%d\n%s\n\n\u2014 %s %s\n", origin, n, b64(root[:]), origin, b64(b))
	alt := l.alts(0, n)
	if _, bad := l.lie("ckptroot"); bad {
		for i := 0; i < n; i++ {
			alt = append(alt, map[string]int{"i": i, "x": -1})
		}
	}
	return 200, []byte(text), Event{"ev": "Sth", "log": l.ID, "n": n, "ts": ts, "ok": ok, "alt": alt}
}

func (l *FakeLog) tile(t tlog.Tile) (int, []byte, Event) {
	n := len(l.Leafs)
	if t.L == -1 {
		lo := int(t.N) * 256
		hi := lo + t.W
		if hi > n || t.W == 0 {
			return 404, nil, nil
		}
		var b []byte
		ids := []int{}
		for i := lo; i < hi; i++ {
			id := l.at(i)
			if l.leaf(id).junk {
				b = append(b, "junk"...)
				ids = append(ids, -2)
				continue
			}
			ids = append(ids, id)
			b = sunlight.AppendTileLeaf(b, l.tileEntry(id))
		}
		for _, x := range l.Lies {
			switch x.Kind {
			case "surplus":
				b = sunlight.AppendTileLeaf(b, l.tileEntry(l.variant("sur", fleaf{kind: l.Pool.Kinds["long"], ts: 4321, idx: hi})))
			case "tiletrunc":
				if x.I >= lo && x.I < hi {
					b = b[:len(b)/2]
				}
			case "emptyents":
				b = nil
			}
		}
		return 200, b, Event{"ev": "Ents", "log": l.ID, "start": lo, "ids": ids}
	}
	w := 1 << (8 * t.L)
	lo := int(t.N) * 256 * w
	if lo+t.W*w > n {
		return 404, nil, nil
	}
	var b []byte
	leaf := l.committed
	if _, ok := l.lie("tilefork"); ok { // hash tiles that match what is served, under the honest root
		leaf = l.at
	}
	for i := 0; i < t.W; i++ {
		h := l.mthOf(lo+i*w, lo+(i+1)*w, leaf)
		for _, x := range l.Lies {
			if x.Kind == "hashtile" && x.I >= lo+i*w && x.I < lo+(i+1)*w {
				h[7] ^= 2
			}
		}
		b = append(b, h[:]...)
	}
	return 200, b, nil
}
