package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

// c33 runs the program with plugins that keep a log of what happens to them.
func c33(r *hk.Run) {
	r.Rule("the real program with one or two plugins that provide the database, the distribution, listeners and the resources, under their own or existing names; the plugins' log of everything that happened to them compared with the configuration and with what their listeners added. non-trivial if the program ran; distinct by configuration")
	r.Cases("run", r.N(150, 3000), 6, plugRun)
	r.Cases("unusable", r.N(60, 600), 6, plugUnusable)
	r.Cases("demo", r.N(8, 60), 4, plugDemo)
	r.Require("values that arrived", 20000)
	r.Require("replaced", 10)
	r.Require("asked the API", 5)
	r.Require("ends with an error", 10)
}

// plugged is a configuration with plugins.
type plugged struct {
	dir, path, api string
	plugins        []string // as configured
	order          []string // of their names, without repetitions
	env            []string
	provides       map[string]string // by what is registered, the plugin that counts
	db, dist       string            // kinds
	dbConf         map[string]interface{}
	distConf       map[string]interface{}
	lisKinds       []string
	lisConfs       []map[string]interface{}
	external       string
	period         time.Duration
}

func plugFile(name string) string {
	return filepath.Join(os.Getenv("VERIF_WORK"), "plug"+name+".so")
}

func makePlugged(c *hk.C, dir string) *plugged {
	p := &plugged{dir: dir, path: filepath.Join(dir, "rothko.toml"), api: address(), provides: map[string]string{}, period: time.Hour}
	p.order = [][]string{{"a"}, {"b"}, {"a", "b"}, {"b", "a"}}[c.Intn(4)]
	for i, name := range p.order {
		path := plugFile(name)
		if c.P(1, 3) { // somewhere else, or relative
			// the same name in another directory
			sub := fmt.Sprintf("p%d", i)
			if err := os.Mkdir(filepath.Join(dir, sub), 0755); err != nil {
				panic(err)
			}
			link := filepath.Join(dir, sub, "p.so")
			raw, err := ioutil.ReadFile(path)
			if err == nil && c.P(1, 2) {
				err = ioutil.WriteFile(link, raw, 0755)
			} else if err == nil {
				err = os.Symlink(path, link)
			}
			if err != nil {
				panic(err)
			}
			path = link
			if c.P(1, 2) {
				path = "./" + sub + "/p.so"
			}
		}
		p.plugins = append(p.plugins, path)
	}
	if c.P(1, 6) { // again
		p.plugins = append(p.plugins, p.plugins[0])
	}
	p.db = c.PickS("plug", "plug", "files", "with spaces and \"quotes\"", "é.x")
	p.dist = c.PickS("plug", "plug", "tdigest", "other")
	kinds := []string{"plug", "graphite", "Plug"}
	// what is registered by whom. the last one counts
	regs := map[string][]string{}
	what := []string{"db:" + p.db, "dist:" + p.dist}
	for _, k := range kinds {
		what = append(what, "listener:"+k)
	}
	what = append(what, "external:x")
	for _, w := range what {
		if strings.ContainsAny(w, " ") {
			p.db = "spaces_and-dashes"
			w = "db:" + p.db
		}
		if w == "external:x" && c.P(1, 2) {
			continue
		}
		who := p.order
		if len(who) == 2 && c.P(1, 2) {
			who = who[c.Intn(2):][:1]
		}
		for _, name := range who {
			regs[name] = append(regs[name], w)
			p.provides[w] = name
		}
		if len(who) == 2 {
			c.Count("replaced", 1)
		}
	}
	p.external = p.provides["external:x"]
	for _, name := range []string{"a", "b"} {
		p.env = append(p.env, "PLUG_"+name+"="+strings.Join(regs[name], " "))
	}
	p.env = append(p.env, "PLUG_LOG="+filepath.Join(dir, "events"))

	p.dbConf = map[string]interface{}{"kept": int64(c.Pick(0, 1, 5, 12)), "late_us": int64(c.Pick(0, 0, 100, 50000, 2000000))}
	if c.P(1, 4) {
		p.dbConf["refuse"] = int64(c.Range(1, 5))
	}
	p.distConf = map[string]interface{}{}
	for i, n := 0, c.Pick(0, 0, 1, 3); i < n; i++ {
		p.distConf[fmt.Sprint("x", i)] = []interface{}{int64(5), 2.5, "text \"x\" é", true, []interface{}{int64(1), int64(2)}, map[string]interface{}{"in": "side", "n": int64(-3)}}[c.Intn(6)]
	}
	for i := c.Range(1, 4); i > 0; i-- {
		p.lisKinds = append(p.lisKinds, kinds[c.Intn(len(kinds))])
		p.lisConfs = append(p.lisConfs, map[string]interface{}{
			"id": int64(i), "hands": int64(c.Pick(1, 1, 2, 4)), "values": int64(c.Pick(0, 1, 100, 2000)),
			"metrics": int64(c.Pick(1, 3, 50)), "pace_us": int64(c.Pick(0, 0, 100, 1000)), "late": int64(c.Pick(0, 0, 5, 300)),
		})
	}
	return p
}

func tomlValue(v interface{}) string {
	switch v := v.(type) {
	case map[string]interface{}:
		var parts []string
		for k, x := range v {
			parts = append(parts, fmt.Sprintf("%q = %s", k, tomlValue(x)))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case []interface{}:
		var parts []string
		for _, x := range v {
			parts = append(parts, tomlValue(x))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case string:
		return fmt.Sprintf("%q", v)
	default:
		return fmt.Sprint(v)
	}
}

func (p *plugged) write(c *hk.C) {
	var b strings.Builder
	table := func(m map[string]interface{}) {
		for k, v := range m {
			fmt.Fprintf(&b, "%s = %s\n", k, tomlValue(v))
		}
	}
	fmt.Fprintf(&b, "[main]\nduration = %q\nplugins = [", p.period)
	for _, path := range p.plugins {
		fmt.Fprintf(&b, "%q, ", path)
	}
	fmt.Fprintf(&b, "]\n")
	for i, kind := range p.lisKinds {
		fmt.Fprintf(&b, "[[listeners.%q]]\n", kind)
		table(p.lisConfs[i])
	}
	fmt.Fprintf(&b, "[database.%q]\n", p.db)
	table(p.dbConf)
	fmt.Fprintf(&b, "[dist.%q]\n", p.dist)
	table(p.distConf)
	fmt.Fprintf(&b, "[api]\naddress = %q\n", p.api)
	if err := ioutil.WriteFile(p.path, []byte(b.String()), 0644); err != nil {
		panic(err)
	}
	c.Logf("%s\n%q", b.String(), p.env)
}

// happened is a line of the plugins' log.
type happened struct {
	What, Plugin, Err, Metric, Name, Msg, Data string
	N, Start, End, ID                          int64
	Written                                    bool
	Value                                      float64
	Config                                     interface{}
}

// events reads the log. the program can still be running.
func (p *plugged) events(c *hk.C) (out []happened) {
	raw, err := ioutil.ReadFile(filepath.Join(p.dir, "events"))
	if err != nil {
		return nil
	}
	raw = raw[:bytes.LastIndexByte(raw, '\n')+1]
	scan := bufio.NewScanner(bytes.NewReader(raw))
	scan.Buffer(nil, 64<<20)
	for scan.Scan() {
		var h happened
		if err := json.Unmarshal(scan.Bytes(), &h); err != nil {
			panic(fmt.Sprintf("harness: %v: %.200q", err, scan.Text()))
		}
		out = append(out, h)
	}
	return out
}

func (p *plugged) launch(args ...string) *proc {
	return launchEnv(p.dir, p.env, args...)
}

// await waits until something happened.
func (p *plugged) await(c *hk.C, pr *proc, what string, n int) bool {
	deadline := time.Now().Add(60 * time.Second)
	for {
		ended := pr.wait(0)
		count := 0
		for _, h := range p.events(c) {
			if h.What == what {
				count++
			}
		}
		if count >= n {
			return true
		}
		if ended || time.Now().After(deadline) {
			if strings.Contains(pr.out.String(), "address already in use") {
				panic("harness: address in use: " + pr.out.String())
			}
			c.Failf("run", "%q happened %d times, not %d (ended %v: %v)\n%s", what, count, n, ended, pr.err, pr.out.String())
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func same(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	var u, v interface{}
	json.Unmarshal(x, &u)
	json.Unmarshal(y, &v)
	x, _ = json.Marshal(u)
	y, _ = json.Marshal(v)
	return string(x) == string(y) || len(x)+len(y) <= 6 && strings.Trim(string(x)+string(y), "{}nul") == ""
}

// judge looks at everything that happened to the plugins. clean tells if the
// program had to store everything.
func (p *plugged) judge(c *hk.C, hs []happened, clean, demo bool) bool {
	var loads []string
	first := map[string]int{}
	count := map[string]int{}
	var made []happened
	distMade := 0
	answered := map[int64]int{}
	queued, writes, skips := int64(0), int64(0), int64(0)
	observed := map[string]float64{}
	stored := map[float64]int{}
	perMetric := map[string]int64{}
	for i, h := range hs {
		if count[h.What]++; count[h.What] == 1 {
			first[h.What] = i
		}
		switch h.What {
		case "broken":
			c.Failf("broken", "%s", h.Err)
			return false
		case "load":
			loads = append(loads, h.Plugin)
		case "make-db", "make-listener":
			made = append(made, h)
		case "make-dist":
			if distMade++; distMade == 1 {
				made = append(made, h)
			} else if h.Plugin != p.provides["dist:"+p.dist] {
				c.Failf("provider", "a distribution is made by plugin %s, not %s", h.Plugin, p.provides["dist:"+p.dist])
				return false
			}
		case "queue":
			queued++
			raw, err := base64.StdEncoding.DecodeString(h.Data)
			var rec data.Record
			if err == nil {
				err = rec.Unmarshal(raw)
			}
			if err != nil || rec.Kind != p.dist || rec.StartTime != h.Start || rec.EndTime != h.End || int64(len(rec.Distribution)) != 8*rec.Observations {
				c.Failf("record", "%v: what is queued for %q from %d to %d is %+v", err, h.Metric, h.Start, h.End, rec)
				return false
			}
			if h.Start > h.End || h.Start < perMetric[h.Metric] {
				c.Failf("times", "what is queued for %q goes from %d to %d, after something that ends at %d", h.Metric, h.Start, h.End, perMetric[h.Metric])
				return false
			}
			perMetric[h.Metric] = h.End
			for d := rec.Distribution; len(d) > 0; d = d[8:] {
				stored[math.Float64frombits(binary.LittleEndian.Uint64(d))]++
			}
		case "answer":
			answered[h.N]++
			if h.Written {
				writes++
			} else {
				skips++
			}
		case "observe":
			observed[h.Name] += h.Value
			fallthrough
		case "info", "error":
			// the first one is told of the loading of the second
			if h.Plugin != p.external && len(loads) == len(p.order) {
				c.Failf("resources", "plugin %q is told %s, the resources of %q are the last ones", h.Plugin, h.What, p.external)
				return false
			}
		case "cancel-db":
			if clean && int64(len(answered)) != queued {
				c.Failf("early stop", "the database is told to stop with %d of %d values answered", len(answered), queued)
				return false
			}
		}
	}
	if fmt.Sprint(loads) != fmt.Sprint(p.order) {
		c.Failf("loads", "plugins %v are configured, %v are loaded", p.order, loads)
		return false
	}
	for _, m := range made {
		reg, conf := "", interface{}(nil)
		switch m.What {
		case "make-db":
			reg, conf = "db:"+p.db, p.dbConf
		case "make-dist":
			reg, conf = "dist:"+p.dist, p.distConf
		default:
			continue
		}
		if m.Plugin != p.provides[reg] || !same(m.Config, conf) {
			c.Failf("provider", "%s is made by plugin %q with %v, configured are %q and %v", reg, m.Plugin, m.Config, p.provides[reg], conf)
			return false
		}
	}
	if demo {
		if count["make-db"] != 1 || count["make-dist"] != 1 || count["make-listener"] != 0 || count["run-db"] != 1 || count["end-db"] != 1 {
			c.Failf("parts", "the demo: %v", count)
			return false
		}
		return true
	}
	// the listeners, each by its settings
	left := map[int]bool{}
	for i := range p.lisConfs {
		left[i] = true
	}
	for _, m := range made {
		if m.What != "make-listener" {
			continue
		}
		found := false
		for i := range p.lisConfs {
			if left[i] && same(m.Config, p.lisConfs[i]) && m.Plugin == p.provides["listener:"+p.lisKinds[i]] {
				delete(left, i)
				found = true
				break
			}
		}
		if !found {
			c.Failf("provider", "a listener is made by plugin %q with %v, which is not configured", m.Plugin, m.Config)
			return false
		}
	}
	if len(left) > 0 || count["make-db"] != 1 || distMade == 0 {
		c.Failf("parts", "%d listeners are not made, of other parts %v", len(left), count)
		return false
	}
	for _, run := range []string{"run-db", "run-listener"} {
		if count[run] > 0 {
			for _, make := range []string{"make-db", "make-dist", "make-listener"} {
				if first[make] > first[run] {
					c.Failf("order", "%s before %s", run, make)
					return false
				}
			}
		}
	}
	if count["run-db"] > 1 || count["end-db"] != count["run-db"] || count["run-listener"] > len(p.lisConfs) || count["end-listener"] != count["run-listener"] {
		c.Failf("parts", "run more than once, or not waited for: %v", count)
		return false
	}
	for v, n := range stored {
		if n > 1 {
			c.Failf("duplicate", "the value %v was stored %d times", v, n)
			return false
		}
	}
	if p.external != "" && count["observe"] == 0 && clean {
		c.Failf("resources", "the last dump is not observed by plugin %q", p.external)
		return false
	}
	if p.external != "" && clean && (observed["metric_writes"] != float64(writes) || observed["metric_skips"] != float64(skips)) {
		c.Failf("resources", "observed are %v, there were %d writes and %d skips", observed, writes, skips)
		return false
	}
	if !clean {
		return true
	}
	if int64(len(answered)) != queued || count["run-db"] != 1 || count["run-listener"] != len(p.lisConfs) {
		c.Failf("parts", "%d of %d values were answered: %v", len(answered), queued, count)
		return false
	}
	// everything that was added was handed to the database
	adds := map[float64]bool{}
	hands, early := int64(0), false
	for _, conf := range p.lisConfs {
		id := conf["id"].(int64)
		hands += conf["hands"].(int64)
		for h := int64(0); h < conf["hands"].(int64); h++ {
			for i := int64(0); i < conf["values"].(int64); i++ {
				adds[float64(id*1000000+h*100000+i)] = true
			}
		}
		if conf["end"] == "early" {
			early = true
		} else {
			for i := int64(0); i < conf["late"].(int64); i++ {
				adds[float64(id*1000000+900000+i)] = true
			}
		}
	}
	_ = early
	lost := int64(0)
	for v := range adds {
		if stored[v] == 0 {
			lost++
		}
	}
	for v := range stored {
		if !adds[v] {
			c.Failf("invented", "the value %v was never added", v)
			return false
		}
	}
	// what is added while a dump is taken is not promised, at most one value
	// by every goroutine that adds.
	allowed := int64(0)
	if p.period < time.Hour {
		ends := map[int64]bool{}
		for _, h := range hs {
			if h.What == "queue" {
				ends[h.End] = true
			}
		}
		allowed = (int64(len(ends)) + 2) * hands
	}
	if lost > allowed {
		c.Failf("lost", "%d of %d values were not handed to the database", lost, len(adds))
		return false
	}
	c.Count("values that arrived", int64(len(stored)))
	return true
}

func plugRun(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	p := makePlugged(c, dir)
	if c.P(1, 3) {
		p.period = time.Duration(c.Pick(20, 100, 300)) * time.Millisecond
	}
	// how it ends
	how := c.PickS("interrupt", "interrupt", "interrupt", "early", "listener", "database", "database quietly", "make", "missing")
	who := c.Intn(len(p.lisConfs))
	clean := false
	switch how {
	case "interrupt":
		clean = true
	case "early":
		clean = true
		p.lisConfs[who]["end"] = "early"
	case "listener":
		p.lisConfs[who]["end"] = "early"
		p.lisConfs[who]["fail"] = "run"
	case "database":
		p.dbConf["fail"] = "run"
		p.dbConf["end_ms"] = int64(c.Pick(1, 50, 300))
	case "database quietly":
		p.dbConf["end_ms"] = int64(c.Pick(1, 50, 300))
	case "make":
		[]map[string]interface{}{p.dbConf, p.distConf, p.lisConfs[who]}[c.Intn(3)]["fail"] = "make"
	case "missing":
		p.lisKinds[who] = "nobody"
	}
	p.write(c)
	pr := p.launch("run", p.path)
	defer pr.kill()
	if how == "interrupt" {
		if !p.await(c, pr, "run-listener", len(p.lisConfs)) || !p.await(c, pr, "run-db", 1) {
			return
		}
		if c.P(1, 2) && !p.await(c, pr, "added", len(p.lisConfs)) {
			return
		}
		if c.P(1, 2) && !p.ask(c, pr) {
			return
		}
		time.Sleep(time.Duration(c.Pick(0, 0, 1, 50, 400)) * time.Millisecond)
		pr.cmd.Process.Signal(syscall.SIGINT)
	}
	if !pr.wait(60 * time.Second) {
		pr.cmd.Process.Signal(syscall.SIGQUIT)
		pr.wait(5 * time.Second)
		c.Failf("exit", "the program does not end (%s)\n%s", how, pr.out.String())
		return
	}
	if strings.Contains(pr.out.String(), "address already in use") {
		panic("harness: address in use: " + pr.out.String())
	}
	bad := how == "listener" || how == "database" || how == "make" || how == "missing"
	if bad != (pr.err != nil) {
		c.Failf("exit", "%s: the program ends with %v\n%s", how, pr.err, pr.out.String())
		return
	}
	if bad {
		c.Count("ends with an error", 1)
	}
	hs := p.events(c)
	if how == "make" || how == "missing" {
		for _, h := range hs {
			if strings.HasPrefix(h.What, "run") || h.What == "queue" {
				c.Failf("started", "%s: something was started all the same: %+v", how, h)
				return
			}
		}
	} else if !p.judge(c, hs, clean, false) {
		return
	}
	c.NonTrivial()
	c.Count("ended by "+how, 1)
	c.Sig(how, p.plugins, p.env, p.lisConfs)
	c.Sample(fmt.Sprintf("%s, plugins %v, listeners %v: %d events", how, p.plugins, p.lisKinds, len(hs)))
}

// ask asks the API for what the plugin's database has.
func (p *plugged) ask(c *hk.C, pr *proc) bool {
	s := &setup{api: p.api}
	deadline := time.Now().Add(30 * time.Second)
	names, err := s.list()
	for err != nil {
		if pr.wait(0) || time.Now().After(deadline) {
			if strings.Contains(pr.out.String(), "address already in use") {
				panic("harness: address in use: " + pr.out.String())
			}
			c.Failf("api", "%v\n%s", err, pr.out.String())
			return false
		}
		time.Sleep(10 * time.Millisecond)
		names, err = s.list()
	}
	kept := p.dbConf["kept"].(int64)
	for i := int64(0); i < 3 && i < kept; i++ {
		name := fmt.Sprintf("kept.%d", i)
		found := false
		for _, n := range names {
			found = found || n == name
		}
		if !found {
			c.Failf("api", "%q is stored, the API lists %q", name, names)
			return false
		}
		if p.dist == "tdigest" {
			continue // what is stored is not of the kind of the plugin
		}
		last := i
		for last+3 < kept {
			last += 3
		}
		code, body, err := s.get("/api/render", url.Values{"metric": {name}, "now": {"2000"}, "duration": {"1us"}, "samples": {"3"}})
		var out struct{ Earliest []byte }
		if err == nil {
			err = json.Unmarshal(body, &out)
		}
		var rec data.Record
		if err == nil {
			err = rec.Unmarshal(out.Earliest)
		}
		if err != nil || code != 200 || rec.EndTime != 1001+last || rec.Kind != "tdigest" {
			c.Failf("api", "%v: %q ends at %d, it is answered (%d) with %+v: %.300q", err, name, 1001+last, code, rec, body)
			return false
		}
	}
	c.Count("asked the API", 1)
	return true
}

// plugUnusable has plugins that can not be loaded.
func plugUnusable(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	p := makePlugged(c, dir)
	bad := filepath.Join(dir, "bad.so")
	switch c.Intn(6) {
	case 0: // missing
	case 1:
		ioutil.WriteFile(bad, nil, 0755)
	case 2:
		ioutil.WriteFile(bad, []byte("no plugin"), 0755)
	case 3:
		os.Mkdir(bad, 0755)
	case 4: // half a plugin
		raw, err := ioutil.ReadFile(plugFile("a"))
		if err != nil {
			panic(err)
		}
		ioutil.WriteFile(bad, raw[:c.Pick(100, 4096)], 0755)
	case 5:
		bad = ""
	}
	at := c.Intn(len(p.plugins) + 1)
	p.plugins = append(p.plugins[:at:at], append([]string{bad}, p.plugins[at:]...)...)
	p.write(c)
	command := c.PickS("run", "run", "demo")
	pr := p.launch(command, p.path)
	defer pr.kill()
	if !pr.wait(60 * time.Second) {
		c.Failf("exit", "%s goes on without the plugin %q\n%s", command, bad, pr.out.String())
		return
	}
	if pr.err == nil {
		c.Failf("exit", "%s succeeds without the plugin %q\n%s", command, bad, pr.out.String())
		return
	}
	loads := 0
	for _, h := range p.events(c) {
		if h.What == "load" {
			loads++
			continue
		}
		if h.What != "info" && h.What != "error" {
			c.Failf("started", "%s without the plugin %q: %+v", command, bad, h)
			return
		}
	}
	if loads > at {
		c.Failf("loads", "%d plugins are loaded, the one at %d can not be", loads, at)
		return
	}
	c.Count("ends with an error", 1)
	c.NonTrivial()
	c.Sig(command, at, p.plugins)
}

// plugDemo has the demo with plugins.
func plugDemo(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	p := makePlugged(c, dir)
	p.dbConf["late_us"] = int64(0)
	delete(p.dbConf, "refuse")
	p.write(c)
	pr := p.launch("demo", p.path)
	defer pr.kill()
	if !pr.wait(75 * time.Second) {
		c.Failf("exit", "the demo does not end\n%s", pr.out.String())
		return
	}
	if pr.err != nil {
		c.Failf("exit", "the demo ends with %v\n%s", pr.err, pr.out.String())
		return
	}
	hs := p.events(c)
	if !p.judgeDemo(c, hs) {
		return
	}
	c.NonTrivial()
	c.Sig("demo", p.plugins, p.env)
}

func (p *plugged) judgeDemo(c *hk.C, hs []happened) bool {
	if !p.judge(c, hs, true, true) {
		return false
	}
	metrics := map[string]int{}
	for _, h := range hs {
		if h.What == "queue" {
			metrics[h.Metric]++
		}
	}
	if len(metrics) != 6 {
		c.Failf("demo", "the demo has %d metrics", len(metrics))
		return false
	}
	c.Count("demos", 1)
	return true
}
