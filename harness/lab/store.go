package lab

import (
	"encoding/hex"
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Storage snapshot: the external view of the persistent directory.
type StoreSnap struct {
	Bins  map[string]BinFile // "<date>::<issuer>"
	Cover *Cover             // nil if there is no coverage file
	Epoch string             // "none", a number, or "bad"
	Tree  map[string]string  // every path -> size/mtime/inode, for the read-only check
}

type BinFile struct {
	OK      bool // complete and well-formed
	Serials []string
	Why     string
}

type CoverLog struct {
	LogID        string
	MMD          uint64
	ShortURL     string
	MinEntry     uint64
	MaxEntry     uint64
	MinTimestamp uint64
	MaxTimestamp uint64
}

type Cover struct {
	OK   bool
	Logs []CoverLog
}

// ParseDate returns the start of the expiry bin and whether it is hour-granular.
func ParseDate(s string) (time.Time, bool, bool) {
	if t, err := time.Parse("2006-01-02-15", s); err == nil {
		return t, true, true
	}
	if t, err := time.Parse("2006-01-02", s); err == nil {
		return t, false, true
	}
	return time.Time{}, false, false
}

// ParseSections parses a serial list that may consist of several expiry
// sections: returns expiry (unix) -> serials in file order.
type Section struct {
	Exp     int64
	Serials []string
}

func ParseSections(data []byte) ([]Section, bool, string) {
	if len(data) == 0 {
		return nil, true, ""
	}
	if data[len(data)-1] != '\n' {
		return nil, false, "no final newline"
	}
	var res []Section
	for _, line := range strings.Split(strings.TrimSuffix(string(data), "\n"), "\n") {
		if strings.HasPrefix(line, "@") {
			if len(line) != 17 {
				return nil, false, "bad expiry line " + line
			}
			n, err := strconv.ParseUint(line[1:], 16, 64)
			if err != nil {
				return nil, false, "bad expiry line " + line
			}
			res = append(res, Section{Exp: int64(n)})
			continue
		}
		if len(res) == 0 {
			return nil, false, "serial before expiry line"
		}
		if _, err := hex.DecodeString(line); err != nil || strings.ToLower(line) != line {
			return nil, false, "bad serial " + line
		}
		res[len(res)-1].Serials = append(res[len(res)-1].Serials, line)
	}
	return res, true, ""
}

func SnapStore(dir string, tree bool) StoreSnap {
	s := StoreSnap{Bins: map[string]BinFile{}, Epoch: "none"}
	sd := filepath.Join(dir, "serials")
	ents, _ := os.ReadDir(sd)
	for _, e := range ents {
		if !e.IsDir() || !strings.HasPrefix(e.Name(), "issuer::") {
			continue
		}
		files, _ := os.ReadDir(filepath.Join(sd, e.Name()))
		for _, f := range files {
			if !strings.HasPrefix(f.Name(), "serials::") {
				continue
			}
			key := strings.TrimPrefix(f.Name(), "serials::")
			data, err := os.ReadFile(filepath.Join(sd, e.Name(), f.Name()))
			if err != nil {
				continue // removed meanwhile
			}
			b := BinFile{}
			parts := strings.Split(key, "::")
			t, _, ok := ParseDate(parts[0])
			secs, wf, why := ParseSections(data)
			switch {
			case len(parts) != 2 || !ok:
				b.Why = "bad name"
			case "issuer::"+parts[1] != e.Name():
				b.Why = "filed under the wrong issuer"
			case !wf:
				b.Why = why
			case len(secs) != 1 || secs[0].Exp != t.Unix():
				b.Why = "bad expiry line"
			default:
				b.OK = true
				b.Serials = secs[0].Serials
			}
			s.Bins[key] = b
		}
	}
	if data, err := os.ReadFile(filepath.Join(dir, "ct-logs.json")); err == nil {
		c := &Cover{}
		if json.Unmarshal(data, &c.Logs) == nil && len(data) > 0 && data[len(data)-1] == '\n' {
			c.OK = true
		}
		sort.Slice(c.Logs, func(i, j int) bool { return c.Logs[i].ShortURL < c.Logs[j].ShortURL })
		s.Cover = c
	}
	if data, err := os.ReadFile(filepath.Join(dir, "epoch")); err == nil {
		t := strings.TrimSpace(string(data))
		if _, err := strconv.ParseUint(t, 10, 64); err == nil && len(data) > 0 && data[len(data)-1] == '\n' {
			s.Epoch = t
		} else {
			s.Epoch = "bad"
		}
	}
	if tree {
		s.Tree = TreeOf(dir)
	}
	return s
}

// TreeOf fingerprints every path below dir.
func TreeOf(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			m[rel] = "dir"
		} else if data, err := os.ReadFile(p); err == nil {
			m[rel] = fi.ModTime().String() + "|" + string(data)
		}
		return nil
	})
	return m
}
