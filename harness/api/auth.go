package main

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

func c22(r *hk.Run) {
	r.Rule("servers with random credentials, origin and static site, asked for every kind of path with every method and random parameters, with right, nearly right, missing and malformed authorization; the database and the static site count how often they are asked and hold marked data. compared with a server without authentication. non-trivial if both admitted and refused requests were made; distinct by credentials and requests")
	r.Cases("auth", r.N(9000, 300000), 8, authCase)
	r.Cases("hammer", r.N(24, 400), 4, hammerCase)
	r.Cases("nonce", r.N(20, 200), 8, nonceCase)
	r.Require("refused", 20000)
	r.Require("admitted", 5000)
	r.Require("admitted-data", 1000)
	r.Require("open", 2000)
	r.Require("hammered", 20000)
}

// PlugStatic is a static site that counts.
type PlugStatic struct{ calls int64 }

func (s *PlugStatic) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	atomic.AddInt64(&s.calls, 1)
	fmt.Fprintf(w, "MARKER static %s", req.URL.Path)
}

func randomSecret(c *hk.C) string {
	switch c.Intn(7) {
	case 0:
		return c.PickS("admin", "user", "root", "rothko")
	case 1:
		return string(c.Bytes(c.Range(1, 40)))
	case 2:
		return strings.Repeat("a", c.Range(1, 300))
	case 3:
		return c.PickS("päss", "пароль", " lead", "trail ", "tab\t", "nul\x00nul", "a b", "Admin")
	default:
		b := make([]byte, c.Range(1, 12))
		for i := range b {
			b[i] = byte(c.Range('!', '~'))
		}
		return string(b)
	}
}

// nearly returns something that is nearly the secret.
func nearly(c *hk.C, s string) string {
	for {
		out := s
		switch c.Intn(9) {
		case 0:
			out = s + c.PickS(" ", "\x00", "a", "\n", ":")
		case 1:
			if len(s) > 0 {
				out = s[:len(s)-1]
			}
		case 2:
			out = strings.ToUpper(s)
		case 3:
			out = strings.ToLower(s)
		case 4:
			if len(s) > 0 {
				b := []byte(s)
				b[c.Intn(len(b))] ^= byte(1 << uint(c.Intn(8)))
				out = string(b)
			}
		case 5:
			out = ""
		case 6:
			out = c.PickS(" ", "\x00", "a") + s
		case 7:
			out = strings.TrimSpace(s)
		default:
			out = s + s
		}
		if out != s {
			return out
		}
		if c.P(1, 3) {
			return s + "x"
		}
	}
}

func basic(user, pass string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
}

func authCase(c *hk.C) {
	user, pass := strings.Replace(randomSecret(c), ":", "", -1), randomSecret(c)
	if user == "" {
		user = "u"
	}
	if c.P(1, 10) {
		pass = ""
	}
	configured := true
	if c.P(1, 8) {
		configured = false
	}
	opts := api.Options{Username: user, Password: pass}
	if !configured {
		opts.Username = ""
	}
	origin := "*"
	if c.P(1, 2) {
		origin = c.PickS("http://example.com", "https://a.b:8080", "null")
		opts.Origin = origin
	}

	db, static := newDB(), &PlugStatic{}
	for _, name := range []string{"MARKER.metric", "MARKER.other"} {
		db.put(name, value{100, 200, encodeRecord(makeRecord(100, 200, 100, 1, makeVals(c, 10)))})
	}
	var site http.Handler
	if c.P(1, 2) {
		site = static
	}
	var srv, open *api.Server
	c.Guard("new", func() {
		srv = api.New(db, site, opts)
		open = api.New(db, site, api.Options{Origin: opts.Origin})
	})
	nonce := serve(open, newRequest("GET", "/api/nonce", nil)).Body.String()
	own := ""
	refused, admitted := 0, 0

	for i := 0; i < 12; i++ {
		path := c.PickS("/api/render", "/api/query", "/api/nonce", "/", "/x/y.html", "/api/", "/api", "//api/render",
			"/api/render/", "/API/render", "/api/../api/query", "/api/query%2f", "/index.html", "*", "")
		switch c.Intn(6) {
		case 0: // what sites and services commonly leave open
			path = c.PickS("/favicon.ico", "/robots.txt", "/health", "/healthz", "/ping", "/status", "/metrics", "/version",
				"/login", "/logout", "/debug/pprof/", "/debug/vars", "/.well-known/x", "/static/app.js", "/js/main.js", "/css/main.css",
				"/main.css", "/logo.png", "/manifest.json", "/api/health", "/api/version", "/api/search", "/api/metrics", "/api/renders",
				"/api/nonce/", "/api/nonce/x", "/public", "/assets/x", "/index.htm", "/sw.js", "/dist/x", "/ui/", "/ui/index.html")
		case 1:
			path = ""
			for n := c.Range(1, 4); n > 0; n-- {
				path += "/" + c.PickS("api", "nonce", "query", "render", "a", "b.html", "c.js", "d.css", "e.png", "", "..", ".", "\x00", "é", " ")
			}
		}
		method := c.PickS("GET", "GET", "GET", "GET", "GET", "GET", "GET", "GET", "GET", "GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "get", "PROPFIND",
			"HEAD", "HEAD", "CONNECT", "", "Get", "GETX", "G")
		var p params
		if c.P(4, 5) {
			p = append(p, "metric", c.PickS("MARKER.metric", "MARKER.metric", "none"), "now", "201", "duration", "300ns", "width", "300", "height", "120")
		}
		if c.P(1, 2) {
			p = append(p, "query", c.PickS("", "MARKER", "zzz"))
		}
		if c.P(1, 4) { // credentials anywhere else do not count
			p = append(p, "username", user, "password", pass, "Authorization", basic(user, pass))
		}

		right := false
		var auth []string
		switch c.Intn(12) {
		case 0:
		case 1:
			auth = []string{basic(nearly(c, user), pass)}
		case 2:
			auth = []string{basic(user, nearly(c, pass))}
		case 3:
			auth = []string{basic(pass, user)}
			right = pass == user
		case 4:
			auth = []string{c.PickS("Bearer ", "Digest ", "Basic", "Basic  ", " Basic ", "Basic\t", "", "Basic: ") +
				base64.StdEncoding.EncodeToString([]byte(user+":"+pass))}
		case 5:
			auth = []string{"Basic " + c.PickS("", "=", "Og==", "!!!!", base64.StdEncoding.EncodeToString([]byte(user)), base64.StdEncoding.EncodeToString([]byte(user+pass)), base64.StdEncoding.EncodeToString([]byte(user+" "+pass)))}
			if pass == "" && user == "" {
				right = true
			}
		case 6:
			auth = []string{basic(nearly(c, user), nearly(c, pass))}
		case 7:
			auth = []string{basic("", pass), basic(user, pass)} // only the first counts
		case 8:
			auth = []string{basic(user, "")}
			right = pass == ""
		default:
			auth = []string{basic(user, pass)}
			right = true
		}
		if len(auth) > 0 && !right {
			// a near miss may be right by accident, where the decoded
			// credentials split elsewhere.
			if u, pw, ok := decode(auth[0]); ok && u == user && pw == pass {
				right = true
			}
		}

		req := newRequest(method, path, p)
		accept := c.P(1, 2)
		prepare := func(req *http.Request) *http.Request {
			if accept {
				req.Header.Set("Accept", "application/json")
			}
			return req
		}
		prepare(req)
		if c.P(1, 4) {
			req.Header.Set("X-Forwarded-User", user)
			req.Header.Set("Cookie", "auth="+user+":"+pass)
			req.Header.Set("Origin", "http://evil")
			req.Header.Set("X-Http-Method-Override", "GET")
		}
		if c.P(1, 4) { // a caller that may look trustworthy
			req.RemoteAddr = c.PickS("127.0.0.1:1", "[::1]:1", "10.0.0.1:80", "@", "")
			req.Host = c.PickS("localhost", "127.0.0.1:8080", "")
			req.Header.Set("X-Forwarded-For", "127.0.0.1")
			req.Header.Set("X-Real-Ip", "::1")
			req.Header.Set("Forwarded", "for=127.0.0.1")
			req.Header.Set("User-Agent", c.PickS("kube-probe/1.2", "curl", "", "ELB-HealthChecker/2.0", "Prometheus/2.0"))
			req.Header.Set("Referer", "http://localhost/")
			req.Header.Set("X-Requested-With", "XMLHttpRequest")
		}
		for _, a := range auth {
			req.Header.Add("Authorization", a)
		}
		what := fmt.Sprintf("%s %q ?%s auth %q (user %q password %q configured %v)", method, path, p.encode(), auth, user, pass, configured)

		dbCalls, siteCalls := db.calls, static.calls
		var rec = newRecorder()
		c.Guard(what, func() { srv.ServeHTTP(rec, req) })
		if c.Failed() {
			return
		}
		body := rec.Body.String()
		if got := rec.Header()["Access-Control-Allow-Origin"]; len(got) != 1 || got[0] != origin {
			c.Failf("origin", "%s: origin header %q, want %q (status %d)", what, got, origin, rec.Code)
			return
		}

		if configured && !right {
			refused++
			if rec.Code != http.StatusUnauthorized {
				c.Failf("admitted", "%s: status %d: %.200q", what, rec.Code, body)
				return
			}
			if !strings.HasPrefix(rec.Header().Get("Www-Authenticate"), "Basic") {
				c.Failf("challenge", "%s: no challenge: %v", what, rec.Header())
				return
			}
			if db.calls != dbCalls || static.calls != siteCalls {
				c.Failf("queried", "%s: the request was refused after asking the database or the site", what)
				return
			}
			all := body + fmt.Sprint(rec.Header())
			if strings.Contains(all, "MARKER") || own != "" && strings.Contains(all, own) {
				c.Failf("revealed", "%s: %.500q", what, all)
				return
			}
			continue
		}
		if configured {
			admitted++
			c.Count("admitted", 1)
		} else {
			c.Count("open", 1)
		}

		// it has to be the same as without authentication
		ref := newRecorder()
		oreq := prepare(newRequest(method, path, p))
		c.Guard(what, func() { open.ServeHTTP(ref, oreq) })
		if c.Failed() {
			return
		}
		if rec.Code != ref.Code || rec.Header().Get("Content-Type") != ref.Header().Get("Content-Type") {
			c.Failf("differs", "%s: status %d, without authentication %d", what, rec.Code, ref.Code)
			return
		}
		if rec.Code == http.StatusUnauthorized {
			c.Failf("refused", "%s: refused", what)
			return
		}
		if method != "GET" {
			if rec.Code != http.StatusMethodNotAllowed {
				c.Failf("method", "%s: status %d", what, rec.Code)
				return
			}
			if db.calls != dbCalls || static.calls != siteCalls {
				c.Failf("method", "%s: asked the database or the site", what)
				return
			}
			continue
		}
		switch path {
		case "/api/nonce":
			if rec.Code != 200 || len(body) < 16 {
				c.Failf("nonce", "%s: %d %q", what, rec.Code, body)
				return
			}
			if own == "" {
				own = body
			}
			if body != own || body == nonce {
				c.Failf("nonce", "%s: %q, before %q, other server %q", what, body, own, nonce)
				return
			}
			if ref.Body.String() != nonce {
				c.Failf("nonce", "%s: the nonce changed", what)
				return
			}
		case "/api/render", "/api/query":
			if rec.Code == 200 && body != ref.Body.String() {
				c.Failf("differs", "%s: %.300q, without authentication %.300q", what, body, ref.Body.String())
				return
			}
			if rec.Code == 200 {
				c.Count("admitted-data", 1)
			}
		default:
			if site == nil && rec.Code != http.StatusNotFound {
				c.Failf("notfound", "%s: status %d", what, rec.Code)
				return
			}
			if site != nil && (rec.Code != 200 || body != "MARKER static "+path) {
				c.Failf("static", "%s: %d %q", what, rec.Code, body)
				return
			}
		}
	}
	c.Count("refused", int64(refused))
	if refused > 0 && admitted > 0 {
		c.NonTrivial()
	}
	c.Sig(user, pass, refused, admitted)
	if c.Index < 3 {
		c.Sample(map[string]interface{}{"user": user, "refused": refused, "admitted": admitted})
	}
}

func decode(auth string) (user, pass string, ok bool) {
	if len(auth) < 6 || !strings.EqualFold(auth[:6], "Basic ") {
		return "", "", false
	}
	b, err := base64.StdEncoding.DecodeString(auth[6:])
	if err != nil {
		return "", "", false
	}
	i := strings.IndexByte(string(b), ':')
	if i < 0 {
		return "", "", false
	}
	return string(b[:i]), string(b[i+1:]), true
}

// hammerCase asks one server very often with wrong credentials, and with right
// ones in between and afterwards, also from several threads.
func hammerCase(c *hk.C) {
	user, pass := "user", randomSecret(c)
	db, static := newDB(), &PlugStatic{}
	srv := api.New(db, static, api.Options{Username: user, Password: pass})
	ask := func(rnd *hk.Rand, right bool) {
		req := newRequest("GET", rnd.PickS("/", "/api/nonce", "/api/query"), nil)
		req.RemoteAddr = fmt.Sprintf("192.0.2.%d:%d", rnd.Range(1, 3), rnd.Range(1, 60000))
		auth := basic(user, pass)
		if !right {
			switch rnd.Intn(4) {
			case 0:
				auth = ""
			case 1:
				auth = basic(user, pass+"x")
			case 2:
				auth = basic("x"+user, pass)
			case 3:
				auth = basic(user, fmt.Sprint(rnd.U64()))
			}
		}
		if auth != "" {
			req.Header.Set("Authorization", auth)
		}
		rec := newRecorder()
		c.Guard("hammer", func() { srv.ServeHTTP(rec, req) })
		hk.Progress()
		switch {
		case right && rec.Code != http.StatusOK:
			c.Failf("refused", "right credentials among many wrong ones are answered %d %.200q", rec.Code, rec.Body)
		case !right && rec.Code != http.StatusUnauthorized:
			c.Failf("admitted", "wrong credentials among right ones are answered %d %.200q", rec.Code, rec.Body)
		}
		c.Count("hammered", 1)
	}
	n := c.Pick(30, 500, 3000)
	for i := 0; i < n && !c.Failed(); i++ {
		ask(c.Rand, false)
	}
	ask(c.Rand, true)
	var wg sync.WaitGroup
	for t := 0; t < 6; t++ {
		rnd, share := hk.NewRand(c.U64()), c.Range(1, 19)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n && !c.Failed(); i++ {
				ask(rnd, rnd.P(share, 20))
			}
		}()
	}
	wg.Wait()
	for i := 0; i < n && !c.Failed(); i++ {
		ask(c.Rand, true)
	}
	ask(c.Rand, false)
	c.NonTrivial()
	c.Sig("hammer", c.Index)
}

// nonceCase asks many servers for their nonces at the same time.
func nonceCase(c *hk.C) {
	seen := map[string]int{}
	for i := 0; i < 50; i++ {
		srv := api.New(newDB(), nil, api.Options{})
		var mu sync.Mutex
		var wg sync.WaitGroup
		got := map[string]bool{}
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 3; k++ {
					s := serve(srv, newRequest("GET", "/api/nonce", nil)).Body.String()
					mu.Lock()
					got[s] = true
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if len(got) != 1 {
			c.Failf("nonce", "one server has nonces %v", got)
			return
		}
		for s := range got {
			if j, ok := seen[s]; ok {
				c.Failf("nonce", "servers %d and %d have the same nonce %q", i, j, s)
				return
			}
			seen[s] = i
		}
	}
	c.NonTrivial()
	c.Count("nonces", int64(len(seen)))
}
