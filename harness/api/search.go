package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/api/query"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

//
// reference
//

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// prefixMatch returns if some prefix of s matches the pattern.
func prefixMatch(p, s string) bool {
	// reach holds the positions of s that can be reached
	reach := make([]bool, len(s)+1)
	reach[0] = true
	for i := 0; i < len(p); i++ {
		next := make([]bool, len(s)+1)
		for j, ok := range reach {
			if !ok {
				continue
			}
			switch {
			case p[i] == '*':
				for k := j; k <= len(s); k++ {
					next[k] = true
				}
			case j < len(s) && (p[i] == '?' || p[i] == s[j]):
				next[j+1] = true
			}
		}
		reach = next
	}
	for _, ok := range reach {
		if ok {
			return true
		}
	}
	return false
}

func pieceMatches(piece, component string) bool {
	piece, component = lower(piece), lower(component)
	for i := 0; i <= len(component); i++ {
		if prefixMatch(piece, component[i:]) {
			return true
		}
	}
	return false
}

func partMatches(part, name string) bool {
	pieces, comps := strings.Split(part, "."), strings.Split(name, ".")
	for i := 0; i+len(pieces) <= len(comps); i++ {
		ok := true
		for j, piece := range pieces {
			if !pieceMatches(piece, comps[i+j]) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func nameMatches(q, name string) bool {
	parts := strings.Fields(q)
	for i := range parts {
		if !partMatches(parts[len(parts)-1-i], name) {
			return false
		}
	}
	return true
}

//
// C24
//

// words returns all of the words over the alphabet up to the length.
func words(alphabet string, n int) []string {
	out := []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, a := range alphabet {
				next = append(next, w+string(a))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func c24(r *hk.Run) {
	r.Rule("every query over small alphabets of letters, dots, wildcards and blanks against every name over small alphabets, and random longer ones; the answers of the API for random sets of names and limits. compared with a matcher that tracks the set of reachable positions. non-trivial if some name matched and some did not; distinct by the query")

	names := words("ab.", r.N(5, 6))
	queries := words("ab.*?", r.N(5, 6))
	chunk := 64
	r.Cases("exhaustive", (len(queries)+chunk-1)/chunk, 8, func(c *hk.C) {
		for i := c.Index * chunk; i < (c.Index+1)*chunk && i < len(queries); i++ {
			matchAll(c, queries[i], names)
		}
	})
	names2 := words("aB. *", 3)
	queries2 := words("Ab. *?", 3)
	r.Cases("mixed", (len(queries2)+chunk-1)/chunk, 8, func(c *hk.C) {
		for i := c.Index * chunk; i < (c.Index+1)*chunk && i < len(queries2); i++ {
			matchAll(c, queries2[i], names2)
		}
	})
	r.Cases("random", r.N(6000, 200000), 8, func(c *hk.C) {
		names := make([]string, 40)
		for i := range names {
			names[i] = randomName(c)
		}
		for i := 0; i < 10; i++ {
			matchAll(c, randomQuery(c, names), names)
		}
	})
	r.Cases("api", r.N(6000, 200000), 8, searchCase)
	r.Cases("large", r.N(4, 200), 4, largeSearch)
	r.Require("largest_answer", 15000)
	r.Require("most_parts", 100)
	r.Require("matches", 100000)
	r.Require("mismatches", 100000)
	r.Require("answers", 5000)
	r.Require("cut", 500)
	r.Require("asked-before", 1000)
}

// largeSearch searches in many names, with few and with many that match, for
// queries of many parts.
func largeSearch(c *hk.C) {
	db := newDB()
	n := c.Range(20000, 30000)
	for i := 0; i < n; i++ {
		db.extra = append(db.extra, fmt.Sprintf("%s.host%d.x%d", []string{"web", "db", "Mail"}[i%3], i%500, i))
	}
	long := strings.Repeat("abc.", 5000) + "end"
	db.extra = append(db.extra, long, "zz.last", "~")
	names := append([]string(nil), db.extra...)
	sort.Strings(names)
	srv := api.New(db, nil, api.Options{})
	parts := make([]string, c.Range(100, 400))
	for i := range parts {
		parts[i] = []string{"e", "host", "*", "x", ".", "h?st"}[c.Intn(6)]
	}
	parts[len(parts)-1] = c.PickS("web", "mail.host7.x", "host33.")
	queries := []string{"", "host", "zz.last", "~", "mail", fmt.Sprintf("x%d", c.Intn(n)), long, "END abc", "nothing", strings.Join(parts, " "),
		strings.Repeat("abc.", c.Range(30, 600)), strings.Repeat("*.", c.Range(3, 40)) + "end"}
	for _, q := range queries {
		limit := c.Pick(1, 300, 15000, n, n+10)
		if q == "" {
			limit = n
		}
		var want []string
		for _, name := range names {
			if len(want) < limit && nameMatches(q, name) {
				want = append(want, name)
			}
		}
		what := fmt.Sprintf("query %.60q of %d bytes and %d parts, up to %d of %d names", q, len(q), len(strings.Fields(q)), limit, len(names))
		c.Guard("search", func() {
			rec := serve(srv, newRequest("GET", "/api/query", params{"query", q, "results", itoa(int64(limit))}))
			var got []string
			if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil || got == nil || rec.Code != http.StatusOK {
				c.Failf("json", "%s: status %d, %v: %.100q", what, rec.Code, err, rec.Body)
				return
			}
			if len(got) != len(want) {
				c.Failf("results", "%s: %d results, should be %d", what, len(got), len(want))
				return
			}
			for i := range got {
				if got[i] != want[i] {
					c.Failf("results", "%s: result %d is %.60q, should be %.60q", what, i, got[i], want[i])
					return
				}
			}
			c.R.Max("largest_answer", int64(len(got)))
			c.R.Max("most_parts", int64(len(strings.Fields(q))))
		})
		if c.Failed() {
			return
		}
		hk.Progress()
	}
	c.NonTrivial()
	c.Sig("large", n)
}

func matchAll(c *hk.C, q string, names []string) {
	yes, no := 0, 0
	c.Guard("match", func() {
		s := query.New(q, 1)
		for _, name := range names {
			want := nameMatches(q, name)
			if got := s.Match(name); got != want {
				c.Failf("match", "query %q, name %q: matched %v, should be %v", q, name, got, want)
				return
			}
			if want {
				yes++
			} else {
				no++
			}
		}
	})
	c.Count("matches", int64(yes))
	c.Count("mismatches", int64(no))
	if yes > 0 && no > 0 {
		c.NonTrivial()
		c.Sig(q)
	}
}

func randomName(c *hk.C) string {
	var b strings.Builder
	style := c.Intn(5)
	n := c.Range(1, 14)
	if c.P(1, 12) { // many components, or long ones
		n = c.Pick(30, 70, 140, 300)
	}
	for i := 0; i < n; i++ {
		switch style {
		case 0:
			b.WriteString(c.PickS("a", "b", ".", "ab", "A"))
		case 3:
			b.WriteString(c.PickS("a", "b", ".", "/", ":", "-", "_", ",", ";", "|", "\\", " ", "%", "+", "=", "[", "]", "^", "$", "(", ")", "1", "\t", "\"", "<", "&"))
		case 4:
			b.WriteString(c.PickS("a", "a", "a", "b", ".", "."))
		case 1:
			b.WriteString(c.PickS("foo", "Bar", ".", ".", "_", "re", "9", "-"))
		default:
			b.WriteString(c.PickS("a", "Z", "z", "@", "[", "`", "{", ".", "\x80", "é", "Å", "K", "\xff", "İ", "ſ"))
		}
	}
	return b.String()
}

func randomQuery(c *hk.C, names []string) string {
	switch c.Intn(5) {
	case 0: // something of a name with wildcards
		b := []byte(names[c.Intn(len(names))])
		for i := range b {
			if c.P(1, 4) {
				b[i] = byte(c.Pick('?', '*', 'a', '.'))
			}
		}
		lo := c.Intn(len(b) + 1)
		return string(b[lo : lo+c.Intn(len(b)-lo+1)])
	case 1:
		return randomName(c) + c.PickS(" ", "\t", "  ", "\u00a0") + c.PickS("*", "?", "a", "b", ".", "foo")
	case 2:
		n := names[c.Intn(len(names))]
		if c.P(1, 2) {
			return strings.ToUpper(n)
		}
		return n
	case 3: // backtracking
		var b strings.Builder
		for i := c.Range(1, 8); i > 0; i-- {
			b.WriteString(c.PickS("*", "a", "b", "?", "*a", "ab", "."))
		}
		return b.String()
	default:
		var b strings.Builder
		for i := c.Range(0, 5); i > 0; i-- {
			b.WriteString(c.PickS("*", "a", "b", "?", "foo", "bar", ".", " ", "\xff", "é", "z", "K",
				"/", ":", "-", "[ab]", "\\*", "|", "^a", "a$", "(a)", "{a,b}", "+", "%", "!", "**", "??", "\"", ".."))
		}
		return b.String()
	}
}

func searchCase(c *hk.C) {
	db := newDB()
	n := c.Pick(0, 1, 5, 12, 40, 150)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		name := randomName(c)
		if c.P(1, 2) { // JSON can't say other bytes
			name = strings.ToValidUTF8(name, "")
		}
		if !seen[name] {
			seen[name] = true
			db.extra = append(db.extra, name)
		}
	}
	names := append([]string(nil), db.extra...)
	sort.Strings(names)
	if len(names) == 0 {
		names = []string{"a"}
	}
	srv := api.New(db, nil, api.Options{})
	for i := 0; i < 4; i++ {
		q := strings.ToValidUTF8(randomQuery(c, names), "")
		p := params{"query", q}
		limit := 10
		switch c.Intn(7) {
		case 0:
		case 1:
			p = append(p, "results", c.PickS("", "x", "1e3", "99999999999999999999", "0x10", " 5"))
		case 2:
			limit = c.Pick(0, -1, -1<<62, -10)
			p = append(p, "results", itoa(int64(limit)))
		case 3:
			limit = c.Pick(1<<62, 1<<40, 1<<31, 1000000)
			p = append(p, "results", itoa(int64(limit)))
		default:
			limit = c.Range(1, 12)
			p = append(p, "results", itoa(int64(limit)))
		}
		want := []string{}
		if len(db.extra) > 0 {
			for _, name := range names {
				if nameMatches(q, name) {
					if len(want) >= limit {
						c.Count("cut", 1)
						break
					}
					want = append(want, name)
				}
			}
		}
		if len(db.extra) > 0 && c.P(1, 3) {
			// the same was asked before, when there were other names
			all := db.extra
			db.extra = nil
			for _, name := range all {
				if c.P(1, 2) {
					db.extra = append(db.extra, name)
				}
			}
			c.Guard("search", func() { serve(srv, newRequest("GET", "/api/query", p)) })
			db.extra = all
			c.Count("asked-before", 1)
		}
		c.Guard("search", func() {
			rec := serve(srv, newRequest("GET", "/api/query", p))
			if rec.Code != http.StatusOK {
				c.Failf("status", "query %q: status %d: %s", p, rec.Code, rec.Body)
				return
			}
			if ct := rec.Header().Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
				c.Failf("type", "query %q: content type %q", p, ct)
				return
			}
			var got []string
			body := rec.Body.Bytes()
			if err := json.Unmarshal(body, &got); err != nil || got == nil {
				c.Failf("json", "query %q: not a JSON list: %q: %v", p, body, err)
				return
			}
			exp, _ := json.Marshal(want)
			var norm []string
			json.Unmarshal(exp, &norm)
			if strings.Join(got, "\x00") != strings.Join(norm, "\x00") || len(got) != len(norm) {
				c.Logf("names: %q", names)
				c.Failf("results", "query %q: got %q, want %q", p, got, norm)
				return
			}
			c.Count("answers", 1)
			if len(got) > 0 {
				c.NonTrivial()
				c.Sig(q, len(got))
			}
			if c.Index < 3 {
				c.Sample(map[string]interface{}{"query": q, "results": got})
			}
		})
	}
}
