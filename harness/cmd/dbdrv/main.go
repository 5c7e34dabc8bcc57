// dbdrv drives the storage package of the code under test: one JSON request
// per line on stdin, one JSON answer per line on stdout. It is a separate
// process so that the harness can kill it and put a proxy in front of Redis.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
)

type Entry struct {
	Issuer string `json:"issuer"` // issuer id
	Exp    int64  `json:"exp"`    // unix seconds of notAfter
	TS     uint64 `json:"ts"`
	LogID  string `json:"logid"` // base64
	Serial string `json:"serial"`
}

type Req struct {
	Op       string   `json:"op"`
	Addr     string   `json:"addr"`
	Dir      string   `json:"dir"`
	ReadOnly bool     `json:"ro"`
	Entries  []Entry  `json:"entries"`
	Log      LogState `json:"log"`
	Token    string   `json:"token"`
}

type LogState struct {
	LogID string `json:"logid"`
	URL   string `json:"url"`
	MMD   uint64 `json:"mmd"`
	Min   uint64 `json:"min"`
	Max   uint64 `json:"max"`
	MinTS uint64 `json:"mints"`
	MaxTS uint64 `json:"maxts"`
}

type Resp struct {
	Err   string     `json:"err,omitempty"`
	Token string     `json:"token,omitempty"`
	Bool  bool       `json:"bool"`
	Items [][]string `json:"items,omitempty"` // key, value (base64)
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	var db storage.CertDatabase
	var cache *storage.RedisCache
	for in.Scan() {
		var q Req
		if err := json.Unmarshal(in.Bytes(), &q); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r := handle(&db, &cache, q)
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func items(db *storage.CertDatabase, es []Entry) []storage.SetMemberWithExpiry {
	var res []storage.SetMemberWithExpiry
	for _, e := range es {
		var id [32]byte
		raw, _ := base64.StdEncoding.DecodeString(e.LogID)
		copy(id[:], raw)
		key := db.GetSerialCacheKey(types.NewExpDateFromTime(time.Unix(e.Exp, 0).UTC()), types.NewIssuerFromString(e.Issuer))
		res = append(res, key.NewMember(e.TS, id, types.NewSerialFromHex(e.Serial)))
	}
	return res
}

func handle(db *storage.CertDatabase, cache **storage.RedisCache, q Req) (r Resp) {
	fail := func(err error) Resp {
		if err != nil {
			r.Err = err.Error()
			if r.Err == "" {
				r.Err = "error"
			}
		}
		return r
	}
	switch q.Op {
	case "open":
		c, err := storage.NewRedisCache(q.Addr, 5*time.Second)
		if err != nil {
			return fail(err)
		}
		*cache = c
		*db, err = storage.NewCertDatabase(c, q.Dir, q.ReadOnly)
		return fail(err)
	case "prepare":
		for _, it := range items(db, q.Entries) {
			r.Items = append(r.Items, []string{it.Key, base64.StdEncoding.EncodeToString([]byte(it.Value))})
		}
	case "store":
		return fail(db.Store(items(db, q.Entries)))
	case "save":
		return fail(db.SaveLogState(&types.CTLogState{LogID: q.Log.LogID, MMD: q.Log.MMD, ShortURL: q.Log.URL,
			MinEntry: q.Log.Min, MaxEntry: q.Log.Max, MinTimestamp: q.Log.MinTS, MaxTimestamp: q.Log.MaxTS,
			LastUpdateTime: time.Now()}))
	case "ensure":
		return fail(db.EnsureCacheIsConsistent())
	case "acquire":
		t, err := (*cache).AcquireCommitLock()
		if t != nil {
			r.Token = *t
			r.Bool = true
		}
		return fail(err)
	case "has":
		b, err := (*cache).HasCommitLock(q.Token)
		r.Bool = b
		return fail(err)
	case "release":
		(*cache).ReleaseCommitLock(q.Token)
	case "commit":
		return fail(db.Commit(q.Token))
	default:
		r.Err = "bad op"
	}
	return r
}
