package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

// PlugLog keeps what is logged about requests.
type PlugLog struct {
	mu   sync.Mutex
	seen []map[string]interface{}
}

func (p *PlugLog) Infow(msg string, keyvals ...interface{}) {
	m := map[string]interface{}{"msg": msg}
	for i := 0; i+1 < len(keyvals); i += 2 {
		m[fmt.Sprint(keyvals[i])] = keyvals[i+1]
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if m["path"] != nil {
		p.seen = append(p.seen, m)
	}
}

func (p *PlugLog) Errorw(msg string, keyvals ...interface{}) { p.Infow(msg, keyvals...) }

func (p *PlugLog) take() []map[string]interface{} {
	p.mu.Lock()
	defer p.mu.Unlock()
	seen := p.seen
	p.seen = nil
	return seen
}

var requestLog PlugLog

func c32(r *hk.Run) {
	r.Rule("requests of every kind and outcome, one at a time and many at once over real connections, with a recording logger; what is logged about them compared with what was asked and answered. non-trivial if something was logged; distinct by request")
	external.Default = external.Resources{Logger: &requestLog}
	r.Cases("requests", r.N(3000, 60000), 1, reportCase)
	r.Cases("many", r.N(6, 60), 1, reportMany)
	for _, n := range []string{"status:200", "status:400", "status:401", "status:404", "status:405", "status:500", "status:301"} {
		r.Require(n, 20)
	}
}

// reportStatic answers by the path.
type reportStatic struct{}

func (reportStatic) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	switch {
	case strings.HasSuffix(req.URL.Path, "missing"):
		http.NotFound(w, req)
	case strings.HasSuffix(req.URL.Path, "moved"):
		http.Redirect(w, req, "/x", http.StatusMovedPermanently)
	case strings.HasSuffix(req.URL.Path, "broken"):
		http.Error(w, "broken", 500)
	case strings.HasSuffix(req.URL.Path, "teapot"):
		w.WriteHeader(http.StatusTeapot)
	case strings.HasSuffix(req.URL.Path, "none"):
	case strings.HasSuffix(req.URL.Path, "pieces"):
		for i := 0; i < 5; i++ {
			fmt.Fprint(w, "piece")
		}
	default:
		w.WriteHeader(200)
		fmt.Fprint(w, "ok")
	}
}

func logged(c *hk.C, what string, seen []map[string]interface{}, req *http.Request, code int) bool {
	if req.URL.Path == "/api/nonce" && len(seen) == 0 {
		return true // there are too many of them
	}
	if len(seen) != 1 {
		c.Failf("logged", "%s: %d lines are logged: %v", what, len(seen), seen)
		return false
	}
	m := seen[0]
	if fmt.Sprint(m["status"]) != fmt.Sprint(code) || fmt.Sprint(m["method"]) != req.Method || fmt.Sprint(m["path"]) != req.URL.Path {
		c.Failf("logged", "%s: answered with %d, logged as %v", what, code, m)
		return false
	}
	return true
}

func reportCase(c *hk.C) {
	db := newDB()
	now := int64(1500000000e9)
	for i := int64(0); i < 3; i++ {
		db.put("m", value{now - (i+1)*10, now - i*10, encodeRecord(makeRecord(now-(i+1)*10, now-i*10, 1000, 1, makeVals(c, 3)))})
	}
	var opts api.Options
	if c.P(1, 3) {
		opts.Username, opts.Password = "user", "pass"
	}
	var static http.Handler = reportStatic{}
	if c.P(1, 8) {
		static = nil
	}
	srv := api.New(db, static, opts)
	requestLog.take()
	for i := 0; i < 6; i++ {
		path := c.PickS("/api/render", "/api/render", "/api/query", "/api/nonce", "/api/nothing", "/", "/a/missing", "/a/moved", "/a/broken", "/teapot", "/a/none", "/pieces", "/é b", "", "/api/render/", "/x/nonce", "/api/nonce/x", "/api/NONCE", "/nonce")
		p := params{"metric", c.PickS("m", "m", "other", ""), "now", itoa(now + 1), "duration", c.PickS("10s", "1h", "-1h", "x"), "query", c.PickS("", "m", "*")}
		if c.P(1, 3) {
			p = append(p, "width", c.PickS("400", "1", "-1", "100000000"))
		} else {
			p = append(p, "width", "30", "height", "20")
		}
		req := newRequest(c.PickS("GET", "GET", "GET", "GET", "GET", "POST", "HEAD", "OPTIONS"), path, p)
		if c.P(1, 2) {
			req.Header.Set("Accept", "application/json")
		}
		switch c.Intn(3) {
		case 0:
			req.SetBasicAuth("user", "wrong")
		case 1:
			req.SetBasicAuth("user", "pass")
		}
		db.failAt = c.Pick(-1, -1, -1, 0, 1)
		what := fmt.Sprintf("%s %q %s", req.Method, path, p.encode())
		rec := newRecorder()
		c.Guard(what, func() { srv.ServeHTTP(rec, req) })
		if c.Failed() || !logged(c, what, requestLog.take(), req, rec.Code) {
			return
		}
		c.Count(fmt.Sprintf("status:%d", rec.Code), 1)
		c.Sample(fmt.Sprintf("%s answered with %d", what, rec.Code))
		c.Sig(what, rec.Code)
	}
	c.NonTrivial()
}

// reportMany asks over connections, many at once.
func reportMany(c *hk.C) {
	srv := httptest.NewServer(api.New(newDB(), reportStatic{}, api.Options{}))
	defer srv.Close()
	requestLog.take()
	client := &http.Client{Timeout: 30 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	var mu sync.Mutex
	codes := map[string]int{}
	var wg sync.WaitGroup
	for t := 0; t < 8; t++ {
		t := t
		rnd := hk.NewRand(c.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 150; i++ {
				path := fmt.Sprintf("/%d/%d/%s", t, i, []string{"x", "missing", "moved", "broken", "teapot", "none", "pieces"}[rnd.Intn(7)])
				resp, err := client.Get(srv.URL + path)
				if err != nil {
					c.Failf("get", "%v", err)
					return
				}
				resp.Body.Close()
				mu.Lock()
				codes[path] = resp.StatusCode
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	srv.Close() // waits for the handlers
	seen := map[string][]map[string]interface{}{}
	for _, m := range requestLog.take() {
		seen[fmt.Sprint(m["path"])] = append(seen[fmt.Sprint(m["path"])], m)
	}
	for path, code := range codes {
		if !logged(c, path, seen[path], newRequest("GET", path, nil), code) {
			return
		}
		c.Count("requests at once", 1)
	}
	if !c.Failed() && len(seen) != len(codes) {
		c.Failf("logged", "%d paths are logged, %d were asked for", len(seen), len(codes))
	}
	c.NonTrivial()
	c.Sig("many", len(codes))
}
