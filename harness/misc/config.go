package main

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/internal/typeassert"
	"github.com/vivint/rothko/internal/zzverif/hk"
	_ "github.com/vivint/rothko/listener/graphite"
	"github.com/vivint/rothko/registry"
)

func c27(r *hk.Run) {
	r.Rule("random configurations written in random styles of TOML, loaded, compared with what was written, written out and loaded again; one setting at a time given a value of the wrong type, or missing, or an unknown kind; damaged and random text; databases, distributions and listeners constructed from configurations, and what they do compared with ones constructed directly; the real program run with secrets while everything that it logs is recorded, its API asked with right and wrong credentials. non-trivial if something was loaded; distinct by configuration")
	r.Cases("load", r.N(6000, 200000), 8, loadCase)
	r.Cases("types", r.N(3000, 100000), 8, typesCase)
	r.Cases("count", r.N(600, 10000), 8, countCase)
	r.Cases("text", r.N(4000, 200000), 8, textCase)
	r.Cases("asserter", r.N(6000, 200000), 8, asserterCase)
	r.Cases("initial", 1, 1, initialCase)
	r.Cases("dist", r.N(300, 5000), 8, distCase)
	r.Cases("files", r.N(120, 2500), 8, filesCase)
	var next int64
	r.Cases("listener", r.N(60, 600), 4, func(c *hk.C) { listenerCase(c, &next) })
	r.Cases("program", r.N(14, 120), 4, func(c *hk.C) { programCase(c, &next) })
	r.Require("loaded", 3000)
	r.Require("ill-typed", 2500)
	r.Require("unknown kinds", 100)
	r.Require("asserted", 3000)
	r.Require("refused assertions", 1000)
	r.Require("databases", 50)
	r.Require("workers", 20)
	r.Require("large settings", 3)
	r.Require("buffers", 20)
	r.Require("listeners", 30)
	r.Require("programs", 8)
	r.Require("log entries", 50)
}

//
// TOML
//

type table = map[string]interface{}

// conf is a configuration to be written.
type conf struct {
	duration  time.Duration
	plugins   []string
	listeners map[string][]interface{}
	database  table
	dist      table
	api       struct {
		address, origin, key, cert, user, pass string
	}
}

func quote(c *hk.C, s string) string {
	if !strings.ContainsAny(s, "'\n\t\r") && c.P(1, 3) {
		return "'" + s + "'"
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r > 126 && r < 0x10000 && c.P(1, 2):
			fmt.Fprintf(&b, `\u%04X`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func bare(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '-') {
			return false
		}
	}
	return s != ""
}

func key(c *hk.C, s string) string {
	if bare(s) {
		return s
	}
	return `"` + strings.NewReplacer(`"`, `\"`, `\`, `\\`).Replace(s) + `"`
}

func inline(c *hk.C, v interface{}) string {
	switch v := v.(type) {
	case string:
		return quote(c, v)
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		s := strconv.FormatFloat(v, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		return s
	case bool:
		return strconv.FormatBool(v)
	case []interface{}:
		var parts []string
		for _, x := range v {
			parts = append(parts, inline(c, x))
		}
		sep := ", "
		if c.P(1, 3) {
			sep = ",\n\t# comment\n\t"
		}
		return "[" + strings.Join(parts, sep) + "]"
	case table:
		var parts []string
		for _, k := range keys(v) {
			parts = append(parts, key(c, k)+" = "+inline(c, v[k]))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	}
	panic(fmt.Sprintf("harness: %T", v))
}

func keys(t table) (out []string) {
	for k := range t {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// writeTable writes the contents of the table, the path of which was written.
func writeTable(c *hk.C, b *strings.Builder, path string, t table) {
	ks := keys(t)
	var later []string
	for _, k := range ks {
		if sub, ok := t[k].(table); ok && c.P(2, 3) {
			_ = sub
			later = append(later, k)
			continue
		}
		if c.P(1, 10) {
			b.WriteString("# x = 5\n\n")
		}
		fmt.Fprintf(b, "%s%s = %s\n", c.PickS("", "\t", "  "), key(c, k), inline(c, t[k]))
	}
	for _, k := range later {
		p := path + "." + key(c, k)
		fmt.Fprintf(b, "\n[%s]\n", p)
		writeTable(c, b, p, t[k].(table))
	}
}

func (cf *conf) write(c *hk.C) string {
	var sections []string
	var b strings.Builder
	flush := func() {
		sections = append(sections, b.String())
		b.Reset()
	}

	b.WriteString("[main]\n")
	fmt.Fprintf(&b, "\tduration = %s\n", quote(c, spellDuration(c, cf.duration)))
	if cf.plugins != nil {
		var ps []interface{}
		for _, p := range cf.plugins {
			ps = append(ps, p)
		}
		fmt.Fprintf(&b, "\tplugins = %s\n", inline(c, ps))
	}
	flush()
	for _, kind := range keys(listenersTable(cf.listeners)) {
		for _, l := range cf.listeners[kind] {
			path := "listeners." + key(c, kind)
			fmt.Fprintf(&b, "[[%s]]\n", path)
			writeTable(c, &b, path, l.(table))
		}
		flush()
	}
	for _, s := range []struct {
		name string
		t    table
	}{{"database", cf.database}, {"dist", cf.dist}} {
		for _, kind := range keys(s.t) {
			path := s.name + "." + key(c, kind)
			fmt.Fprintf(&b, "[%s]\n", path)
			writeTable(c, &b, path, s.t[kind].(table))
		}
		flush()
	}
	b.WriteString("[api]\n")
	a := cf.api
	put := func(k, v string) {
		if v != "" || c.P(1, 3) {
			fmt.Fprintf(&b, "\t%s = %s\n", k, quote(c, v))
		}
	}
	put("address", a.address)
	put("origin", a.origin)
	b.WriteString("[api.tls]\n")
	put("key", a.key)
	put("cert", a.cert)
	b.WriteString("[api.security]\n")
	put("username", a.user)
	put("password", a.pass)
	flush()

	out := ""
	for _, i := range c.Perm(len(sections)) {
		out += sections[i] + c.PickS("", "\n", "# comment = true\n\n")
	}
	return out
}

func listenersTable(m map[string][]interface{}) table {
	t := make(table)
	for k := range m {
		t[k] = nil
	}
	return t
}

// spellDuration writes a duration in one of several ways.
func spellDuration(c *hk.C, d time.Duration) string {
	switch c.Intn(3) {
	case 0:
		return strconv.FormatInt(int64(d), 10) + "ns"
	case 1:
		if d%time.Second == 0 {
			return strconv.FormatInt(int64(d/time.Second), 10) + "s"
		}
	}
	return d.String()
}

func word(c *hk.C) string {
	switch c.Intn(8) {
	case 0:
		return ""
	case 1:
		return c.PickS("ключ", "日本", "é", "a=b", "#x", `"`, `\`, `'`, "a'b\"c", "[x]", "{}", "\t", "a\nb", " a ", "\\n", "\\u0041", "$HOME", "%s")
	}
	b := make([]byte, c.Range(1, 20))
	for i := range b {
		b[i] = byte(c.Range(32, 126))
	}
	return string(b)
}

func scalar(c *hk.C) interface{} {
	switch c.Intn(5) {
	case 0:
		return word(c)
	case 1:
		return int64(c.U64()) >> uint(c.Intn(64))
	case 2:
		return c.Pick(0, 1, 1)*2 == 2
	case 3:
		return float64(c.Range(-100000, 100000)) / 128
	default:
		return c.Float()
	}
}

func entity(c *hk.C, depth int) table {
	t := make(table)
	for i := c.Intn(6); i > 0; i-- {
		k := c.PickS("address", "size", "cap", "files", "directory", "tuning", "x", "Y", "a b", "1", "dotted.key", "ключ")
		switch {
		case depth > 0 && c.P(1, 4):
			t[k] = entity(c, depth-1)
		case c.P(1, 6):
			first := scalar(c)
			arr := []interface{}{first}
			for j := c.Intn(4); j > 0; j-- {
				if v := scalar(c); reflect.TypeOf(v) == reflect.TypeOf(first) {
					arr = append(arr, v)
				}
			}
			t[k] = arr
		default:
			t[k] = scalar(c)
		}
	}
	return t
}

func makeConf(c *hk.C) *conf {
	cf := &conf{listeners: make(map[string][]interface{})}
	cf.duration = time.Duration(c.U64()>>1) >> uint(c.Intn(60))
	if c.P(1, 3) {
		cf.duration = time.Duration(c.Range(1, 100000)) * time.Second
	}
	if c.P(1, 10) {
		cf.duration = -cf.duration
	}
	if c.P(1, 2) {
		cf.plugins = []string{}
		for i := c.Intn(4); i > 0; i-- {
			cf.plugins = append(cf.plugins, word(c))
		}
	}
	kind := func() string { return c.PickS("graphite", "files", "tdigest", "my kind", "x.y", "Я", "statsd") }
	for i := c.Intn(4); i > 0; i-- {
		k := kind()
		for j := c.Pick(1, 2, 3, c.Range(1, 40)); j > 0; j-- {
			cf.listeners[k] = append(cf.listeners[k], entity(c, 2))
		}
	}
	cf.database = table{kind(): entity(c, 2)}
	cf.dist = table{kind(): entity(c, 2)}
	cf.api.address, cf.api.origin = word(c), word(c)
	cf.api.key, cf.api.cert = word(c), word(c)
	cf.api.user, cf.api.pass = word(c), word(c)
	return cf
}

//
// loading
//

func load(c *hk.C, text string) (conf *config.Config, err error) {
	c.Guard("load", func() { conf, err = config.Load([]byte(text)) })
	return conf, err
}

// differs compares what was loaded with what was written.
func (cf *conf) differs(got *config.Config) string {
	if got.Main.Duration != cf.duration {
		return fmt.Sprintf("duration %v, should be %v", got.Main.Duration, cf.duration)
	}
	if len(got.Main.Plugins) != len(cf.plugins) {
		return fmt.Sprintf("plugins %q, should be %q", got.Main.Plugins, cf.plugins)
	}
	for i := range cf.plugins {
		if got.Main.Plugins[i] != cf.plugins[i] {
			return fmt.Sprintf("plugins %q, should be %q", got.Main.Plugins, cf.plugins)
		}
	}
	a, b := got.API, cf.api
	if a.Address != b.address || a.Origin != b.origin || a.TLS.Key != b.key || a.TLS.Cert != b.cert || a.Security.Username != b.user || a.Security.Password != b.pass {
		return fmt.Sprintf("api %+v, should be %+v", a, b)
	}
	one := func(e config.Entity, t table) string {
		want, ok := t[e.Kind]
		if !ok || !reflect.DeepEqual(e.Config, want) {
			return fmt.Sprintf("%q %#v, should be %#v", e.Kind, e.Config, t)
		}
		return ""
	}
	if d := one(got.Database, cf.database); d != "" {
		return "database " + d
	}
	if d := one(got.Dist, cf.dist); d != "" {
		return "dist " + d
	}
	listeners := make(map[string][]interface{})
	for _, e := range got.Listeners {
		listeners[e.Kind] = append(listeners[e.Kind], e.Config)
	}
	if !reflect.DeepEqual(listeners, cf.listeners) {
		return fmt.Sprintf("listeners %#v, should be %#v", listeners, cf.listeners)
	}
	return ""
}

func loadCase(c *hk.C) {
	cf := makeConf(c)
	text := cf.write(c)
	c.Logf("%s", text)
	got, err := load(c, text)
	if c.Failed() {
		return
	}
	if err != nil {
		c.Failf("load", "a valid configuration is refused: %v\n%s", err, text)
		return
	}
	if d := cf.differs(got); d != "" {
		c.Failf("differs", "%s\n%s", d, text)
		return
	}
	var out bytes.Buffer
	c.Guard("write", func() { err = got.WriteTo(&out) })
	if c.Failed() {
		return
	}
	if err != nil {
		c.Failf("write", "can not be written: %v\n%s", err, text)
		return
	}
	again, err := load(c, out.String())
	if c.Failed() {
		return
	}
	if err != nil {
		c.Failf("again", "what was written can not be loaded: %v\n%s", err, out.String())
		return
	}
	if d := cf.differs(again); d != "" {
		c.Failf("again", "written and loaded: %s\n%s", d, out.String())
		return
	}
	c.Count("loaded", 1)
	c.NonTrivial()
	c.Sig(text)
	if c.Index < 2 {
		c.Sample(text)
	}
}

// build constructs everything that a configuration asks for, as the program
// does.
func build(c *hk.C, cf *config.Config) (err error) {
	c.Guard("construct", func() {
		if _, err = registry.NewDatabase(ctx, cf.Database.Kind, cf.Database.Config); err != nil {
			return
		}
		if _, err = registry.NewDistribution(ctx, cf.Dist.Kind, cf.Dist.Config); err != nil {
			return
		}
		for _, l := range cf.Listeners {
			if _, err = registry.NewListener(ctx, l.Kind, l.Config); err != nil {
				return
			}
		}
	})
	return err
}

// settings are the ones that are known, with a right value.
var settings = []struct {
	section, name, value string
	types                string // of the values that are wrong
}{
	{"main", "duration", `"10m"`, "sSifba"},
	{"main", "plugins", `[]`, "sifbA"},
	{"listeners.graphite", "address", `":1111"`, "ifbat"},
	{"database.files", "directory", `"data"`, "ifbat"},
	{"database.files", "size", `256`, "sfbat"},
	{"database.files", "cap", `400`, "sfbat"},
	{"database.files", "files", `2`, "sfbat"},
	{"database.files.tuning", "buffer", `10`, "sfbat"},
	{"database.files.tuning", "drop", `true`, "sifat"},
	{"database.files.tuning", "handles", `10`, "sfbat"},
	{"database.files.tuning", "workers", `2`, "sfbat"},
	{"dist.tdigest", "compression", `5.0`, "sibat"},
	{"api", "address", `":8080"`, "ifbat"},
	{"api", "origin", `"*"`, "ifbat"},
	{"api.tls", "key", `""`, "ifbat"},
	{"api.tls", "cert", `""`, "ifbat"},
	{"api.security", "username", `""`, "ifbat"},
	{"api.security", "password", `""`, "ifbat"},
}

// wrong makes a value of a wrong type.
func wrong(c *hk.C, types string) string {
	switch types[c.Intn(len(types))] {
	case 's':
		return c.PickS(`"x"`, `""`, `"5"`, `"true"`, `"1.5"`)
	case 'S': // only wrong as a duration
		return c.PickS(`"5"`, `"1 h"`, `"1hour"`, `"h"`, `"-"`)
	case 'i':
		return c.PickS("5", "-1", "10")
	case 'f':
		return c.PickS("1.5", "5.0", "-0.5")
	case 'b':
		return c.PickS("true", "false")
	case 'a':
		return c.PickS("[1]", "[]", `["x"]`, "[true]", "[1.5]")
	case 'A': // only wrong as strings
		return c.PickS("[1]", "[true]", "[1.5]", "[[]]")
	case 't':
		return c.PickS("{x = 1}", "{}")
	}
	panic("harness")
}

func typesCase(c *hk.C) {
	type change struct{ section, name, value string }
	var ch change
	whole := ""
	what := ""
	switch c.Intn(10) {
	case 0: // a section that is not a table
		switch c.Intn(8) {
		case 0:
			whole = c.PickS("main", "api", "database", "dist", "listeners", "api.tls", "api.security", "database.files", "dist.tdigest", "database.files.tuning")
		case 1:
			whole = "database.files.tuning"
		case 2:
			whole = "listeners.graphite"
		default:
			whole = c.PickS("database.files", "dist.tdigest", "listeners.graphite")
		}
		what = whole + " is not a table"
	case 1: // an unknown kind
		whole = "kind " + c.PickS("listeners", "database", "dist")
		what = "unknown " + whole
	default:
		s := settings[c.Intn(len(settings))]
		ch = change{s.section, s.name, wrong(c, s.types)}
		if ch.value == `""` && ch.name == "duration" {
			ch.value = `"x"`
		}
		what = fmt.Sprintf("%s.%s = %s", ch.section, ch.name, ch.value)
	}

	text, ok := "", ""
	scalarValue := c.PickS("5", `"x"`, "true", "1.5", "[5]")
	for pass := 0; pass < 2; pass++ {
		out := ""
		mutate := pass == 0
		last := ""
		skip := func(section string) bool {
			return mutate && (section == whole || strings.HasPrefix(section, whole+".")) && whole != ""
		}
		if mutate && whole != "" && !strings.HasPrefix(whole, "kind ") && !strings.Contains(whole, ".") {
			out += whole + " = " + scalarValue + "\n"
		}
		for _, s := range settings {
			if skip(s.section) {
				if parent := strings.LastIndex(whole, "."); parent >= 0 && s.section == whole {
					if i := strings.LastIndex(s.section, "."); !strings.Contains(out, "= # whole") {
						prefix := ""
						if last != s.section[:i] {
							prefix = "[" + s.section[:i] + "]\n"
						}
						out += prefix + s.section[i+1:] + " = # whole\n"
						last = s.section[:i]
					}
				}
				continue
			}
			if s.section != last {
				section := s.section
				if mutate && strings.HasPrefix(whole, "kind ") {
					top := whole[len("kind "):]
					if strings.HasPrefix(section, top+".") {
						section = strings.Replace(section, top+".", top+".no-such-", 1)
					}
				}
				if strings.HasPrefix(section, "listeners.") {
					section = "[" + section + "]"
				}
				out += "[" + section + "]\n"
				last = s.section
			}
			value := s.value
			if mutate && ch.section == s.section && ch.name == s.name {
				value = ch.value
			}
			out += s.name + " = " + value + "\n"
		}
		out = strings.Replace(out, "= # whole", "= "+scalarValue, 1)
		if mutate {
			text = out
		} else {
			ok = out
		}
	}
	c.Logf("%s", text)

	good, err := load(c, ok)
	if err == nil {
		err = build(c, good)
	}
	if c.Failed() {
		return
	}
	if err != nil {
		c.Failf("refused", "a valid configuration is refused: %v\n%s", err, ok)
		return
	}
	bad, err := load(c, text)
	if err == nil {
		err = build(c, bad)
	}
	if c.Failed() {
		return
	}
	if err == nil {
		c.Failf("guessed", "%s is accepted\n%s", what, text)
		return
	}
	if strings.HasPrefix(whole, "kind ") {
		c.Count("unknown kinds", 1)
	} else {
		c.Count("ill-typed", 1)
	}
	c.NonTrivial()
	c.Sig(what, scalarValue)
}

// countCase has none or several databases or distributions.
func countCase(c *hk.C) {
	text := "[main]\nduration = \"1m\"\n"
	db, di := c.Intn(4), c.Intn(4)
	for i := 0; i < db; i++ {
		text += fmt.Sprintf("[database.%s]\nx = 1\n", []string{"files", "other", "more"}[i])
	}
	if db == 0 && c.P(1, 2) {
		text += "[database]\n"
	}
	for i := 0; i < di; i++ {
		text += fmt.Sprintf("[dist.%s]\nx = 1\n", []string{"tdigest", "other", "more"}[i])
	}
	if di == 0 && c.P(1, 2) {
		text += "[dist]\n"
	}
	_, err := load(c, text)
	if want := db == 1 && di == 1; want != (err == nil) {
		c.Failf("count", "with %d databases and %d distributions: %v", db, di, err)
		return
	}
	c.NonTrivial()
	c.Sig(db, di)
}

// textCase loads damaged text.
func textCase(c *hk.C) {
	text := []byte(makeConf(c).write(c))
	switch c.Intn(4) {
	case 0:
		text = c.Bytes(c.Intn(300))
	case 1:
		text = text[:c.Intn(len(text))]
	default:
		for i := c.Range(1, 5); i > 0; i-- {
			text[c.Intn(len(text))] = c.PickS("[", "]", "=", "\"", "\n", "{", "\x00", ".", "#", "\xff")[0]
		}
	}
	c.Logf("%q", text)
	got, err := load(c, string(text))
	if err == nil && !c.Failed() && got != nil {
		// whatever it is, it can be constructed or not
		build(c, got)
		var out bytes.Buffer
		c.Guard("write", func() { got.WriteTo(&out) })
		c.Count("damaged but valid", 1)
	}
	c.Sig(text)
}

func initialCase(c *hk.C) {
	got, err := load(c, config.InitialConfig)
	if err == nil {
		err = build(c, got)
	}
	if err != nil || got.Main.Duration <= 0 {
		c.Failf("initial", "the initial configuration is not valid: %v", err)
	}
	c.NonTrivial()
}

//
// strictly typed access
//

func asserterCase(c *hk.C) {
	root := entity(c, 3)
	var v interface{} = root
	a := typeassert.A(v)
	failed := false
	path := ""
	// v is nil when it is missing, and everything in what is missing is too
	for i := c.Range(0, 4); i > 0 && !failed; i-- {
		if c.P(1, 5) {
			n := c.Intn(3)
			c.Guard("N", func() { a = a.N(n) })
			path += fmt.Sprintf("[%d]", n)
			if v != nil {
				arr, ok := v.([]interface{})
				if !ok || n >= len(arr) {
					failed = true
				} else {
					v = arr[n]
				}
			}
		} else {
			k := c.PickS("address", "size", "cap", "files", "directory", "tuning", "x", "Y", "a b", "1", "nothing")
			c.Guard("I", func() { a = a.I(k) })
			path += "." + k
			if v != nil {
				t, ok := v.(table)
				if !ok {
					failed = true
				} else {
					v = t[k]
				}
			}
		}
	}
	if c.Failed() {
		return
	}
	if !failed && c.P(1, 4) {
		if !reflect.DeepEqual(a.V(), v) {
			c.Failf("value", "%s is %#v, should be %#v in %#v", path, a.V(), v, root)
			return
		}
	}
	var got, want interface{}
	ok := true
	c.Guard("typed", func() {
		switch c.Intn(4) {
		case 0:
			got = a.String()
			want, ok = v.(string)
			path += " as a string"
		case 1:
			got = a.Int64()
			want, ok = v.(int64)
			path += " as an int64"
		case 2:
			got = a.Bool()
			want, ok = v.(bool)
			path += " as a bool"
		default:
			got = a.Float64()
			want, ok = v.(float64)
			path += " as a float64"
		}
	})
	if c.Failed() {
		return
	}
	if v == nil {
		ok = true // and want is zero
	}
	if failed || !ok {
		if a.Err() == nil {
			c.Failf("guessed", "%s in %#v gives %#v without an error", path, root, got)
			return
		}
		c.Count("refused assertions", 1)
		// and it stays that way
		c.Guard("after", func() { a.I("x").N(0).String() })
		if a.Err() == nil {
			c.Failf("guessed", "%s: the error is forgotten", path)
		}
	} else {
		if a.Err() != nil || !reflect.DeepEqual(got, want) {
			c.Failf("asserted", "%s in %#v gives %#v (%v), should be %#v", path, root, got, a.Err(), want)
			return
		}
		c.Count("asserted", 1)
		if v != nil {
			c.NonTrivial()
		}
	}
	c.Sig(path)
}

//
// components
//

func distCase(c *hk.C) {
	comp := float64(c.Pick(5, 10, 50, 100, c.Range(3, 500)))
	if c.P(1, 2) {
		comp += .5
	}
	text := fmt.Sprintf("[main]\nduration=\"1m\"\n[database.files]\n[dist.tdigest]\ncompression = %s\n", inline(c, comp))
	got, err := load(c, text)
	if err != nil {
		c.Failf("load", "%v\n%s", err, text)
		return
	}
	params, err := registry.NewDistribution(ctx, got.Dist.Kind, got.Dist.Config)
	if err != nil {
		c.Failf("construct", "%v\n%s", err, text)
		return
	}
	direct := tdigest.Params{Compression: comp}
	if params.Kind() != direct.Kind() {
		c.Failf("kind", "%q", params.Kind())
		return
	}
	// more observations than compress without loss, so that it matters
	var a, b dist.Dist
	if a, err = params.New(); err == nil {
		b, err = direct.New()
	}
	if err != nil {
		c.Failf("new", "%v", err)
		return
	}
	for i := 0; i < 2000; i++ {
		v := c.Float() * 1000
		a.Observe(v)
		b.Observe(v)
	}
	if !bytes.Equal(a.Marshal(nil), b.Marshal(nil)) {
		// or the merging is random; then the sizes tell
		la, lb := len(a.Marshal(nil)), len(b.Marshal(nil))
		if la < lb*9/10 || la > lb*11/10 {
			c.Failf("compression", "with a compression of %v from the configuration the encoding has %d bytes, directly %d", comp, la, lb)
			return
		}
		c.Count("random compression", 1)
	}
	c.NonTrivial()
	c.Sig(comp)
	c.Count("dists", 1)
}

type result struct {
	ok  bool
	err error
}

func runDB(db database.DB) (stop func()) {
	dctx, cancel := context.WithCancel(ctx)
	done := make(chan struct{})
	go func() { db.Run(dctx); close(done) }()
	return func() { cancel(); <-done }
}

func put(db database.DB, metric string, start, end int64, data []byte) result {
	ch := make(chan result, 1)
	db.Queue(ctx, metric, start, end, data, func(ok bool, err error) { ch <- result{ok, err} })
	return <-ch
}

// tree describes the files below a directory.
func tree(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			rel, _ := filepath.Rel(dir, p)
			out = append(out, fmt.Sprintf("%s:%d", rel, info.Size()))
		}
		return nil
	})
	return strings.Join(out, " ")
}

// openFiles counts the files below the directory that are open or mapped.
func openFiles(dir string) int {
	seen := make(map[string]bool)
	names, _ := filepath.Glob("/proc/self/fd/*")
	n := 0
	for _, name := range names {
		if target, err := os.Readlink(name); err == nil && strings.HasPrefix(target, dir+"/") {
			n++
			seen[target] = true
		}
	}
	maps, _ := ioutil.ReadFile("/proc/self/maps")
	for _, line := range strings.Split(string(maps), "\n") {
		if i := strings.Index(line, dir+"/"); i >= 0 && !seen[line[i:]] {
			n++
		}
	}
	return n
}

func filesCase(c *hk.C) {
	base := c.R.TempDir()
	defer os.RemoveAll(base)
	opts := files.Options{
		Size: c.Pick(90, 100, 128, 256), Cap: c.Pick(3, 5, 9), Files: c.Pick(0, 1, 2, 4),
		Tuning: files.Tuning{Buffer: c.Pick(0, 1, 3, 7), Drop: c.P(1, 2), Handles: c.Pick(1, 2, 5, 20), Workers: c.Range(1, 4)},
	}
	if c.P(1, 8) { // more than usual
		opts.Tuning.Workers = c.Range(5, 130)
		opts.Tuning.Handles = c.Range(1, 200)
		opts.Tuning.Buffer = c.Range(100, 3000)
		opts.Size = c.Pick(1024, 5000, 20000)
		opts.Cap = c.Range(3, 40)
		opts.Files = c.Range(0, 12)
		c.Count("large settings", 1)
	}
	metrics := opts.Tuning.Workers + 9
	dirA, dirB := filepath.Join(base, c.PickS("a", "a b", "é")), filepath.Join(base, "direct")
	cf := &conf{duration: time.Minute, dist: table{"tdigest": table{}}, database: table{"files": table{
		"directory": dirA, "size": int64(opts.Size), "cap": int64(opts.Cap), "files": int64(opts.Files),
		"tuning": table{"buffer": int64(opts.Tuning.Buffer), "drop": opts.Tuning.Drop, "handles": int64(opts.Tuning.Handles), "workers": int64(opts.Tuning.Workers)},
	}}}
	text := cf.write(c)
	c.Logf("%s", text)
	got, err := load(c, text)
	if err != nil {
		c.Failf("load", "%v\n%s", err, text)
		return
	}
	mk := func() database.DB {
		var db database.DB
		var err error
		c.Guard("construct", func() { db, err = registry.NewDatabase(ctx, got.Database.Kind, got.Database.Config) })
		if err != nil {
			c.Failf("construct", "%v\n%s", err, text)
		}
		return db
	}
	a := mk()
	if c.Failed() {
		return
	}
	// without dropping, as nothing else depends on it
	waits := opts
	waits.Tuning.Drop = false
	b := database.DB(files.New(dirB, waits))

	// before it runs, the buffer fills
	if opts.Tuning.Drop {
		var dropped, handled int32
		for i := 0; i < opts.Tuning.Buffer+3; i++ {
			a.Queue(ctx, "buffer", int64(i), int64(i)+1, []byte("x"), func(ok bool, err error) {
				if ok {
					atomic.AddInt32(&handled, 1)
				} else {
					atomic.AddInt32(&dropped, 1)
				}
			})
		}
		if d := atomic.LoadInt32(&dropped); d != 3 {
			c.Failf("drop", "with a buffer of %d and drop, %d of %d values were refused at once", opts.Tuning.Buffer, d, opts.Tuning.Buffer+3)
			return
		}
	} else {
		qctx, cancel := context.WithTimeout(ctx, 20*time.Millisecond)
		for i := 0; i < opts.Tuning.Buffer; i++ {
			var done int32
			a.Queue(qctx, "buffer", int64(i), int64(i)+1, []byte("x"), func(bool, error) { atomic.StoreInt32(&done, 1) })
			if atomic.LoadInt32(&done) != 0 {
				// the timeout may have passed already
				if qctx.Err() == nil {
					c.Failf("buffer", "with a buffer of %d, value %d was refused", opts.Tuning.Buffer, i)
				}
				break
			}
		}
		if qctx.Err() == nil {
			var refused int32
			a.Queue(qctx, "buffer", 100, 101, []byte("x"), func(ok bool, err error) { atomic.StoreInt32(&refused, 1) })
			if qctx.Err() == nil || atomic.LoadInt32(&refused) != 1 {
				c.Failf("buffer", "with a buffer of %d and without drop, value %d did not wait", opts.Tuning.Buffer, opts.Tuning.Buffer)
			}
		}
		cancel()
	}
	if c.Failed() {
		return
	}
	c.Count("buffers", 1)

	// as many values are handled at a time as there are workers. the first
	// database still has values that were queued, this needs a new one
	a = mk()
	stopA, stopB := runDB(a), runDB(b)
	running := true
	stop := func() {
		if running {
			running = false
			stopA()
			stopB()
		}
	}
	defer stop()
	{
		var mu sync.Mutex
		now, most := 0, 0
		release := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < metrics; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					again := make(chan bool, 1)
					a.Queue(ctx, fmt.Sprintf("workers%d", i), 1, 2, []byte("x"), func(ok bool, err error) {
						if !ok && err == nil { // dropped
							again <- true
							return
						}
						mu.Lock()
						now++
						if now > most {
							most = now
						}
						mu.Unlock()
						<-release
						mu.Lock()
						now--
						mu.Unlock()
						again <- false
					})
					if !<-again {
						return
					}
					time.Sleep(time.Millisecond)
				}
			}()
		}
		deadline := time.Now().Add(20 * time.Second)
		reached := false
		for time.Now().Before(deadline) {
			mu.Lock()
			m := most
			mu.Unlock()
			if m >= opts.Tuning.Workers {
				reached = true
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
		time.Sleep(5 * time.Millisecond)
		close(release)
		wg.Wait()
		if !reached || most > opts.Tuning.Workers {
			c.Failf("workers", "with %d workers, %d values were handled at a time", opts.Tuning.Workers, most)
			return
		}
		c.Count("workers", 1)
	}
	for i := 0; i < metrics; i++ {
		if r := put(b, fmt.Sprintf("workers%d", i), 1, 2, []byte("x")); r.err != nil {
			c.Failf("files", "a value can not be written: %v", r.err)
			return
		}
	}

	// the same is kept in the same files
	settle := func(metric string, start, end int64, data []byte) (ra, rb result) {
		rb = put(b, metric, start, end, data)
		for deadline := time.Now().Add(20 * time.Second); ; {
			ra = put(a, metric, start, end, data)
			// values may be dropped while no worker is waiting
			if ra.ok == rb.ok || ra.err != nil || !opts.Tuning.Drop || time.Now().After(deadline) {
				return ra, rb
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
	for i := 0; i < c.Range(10, 60); i++ {
		v := c.Bytes(c.Pick(1, 20, opts.Size, 2*opts.Size))
		if len(v) > 100 && c.P(1, 2) {
			v = v[:100]
		}
		ra, rb := settle("m", int64(10*i), int64(10*i+9), v)
		if ra.ok != rb.ok || (ra.err == nil) != (rb.err == nil) {
			c.Failf("files", "writing %d bytes: %v, with the same options directly %v", len(v), ra, rb)
			return
		}
	}
	read := func(db database.DB) (out []string) {
		db.Query(ctx, "m", 1<<62, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
			out = append(out, fmt.Sprintf("%d-%d:%x", start, end, data))
			return true, nil
		})
		return out
	}
	if va, vb := read(a), read(b); !reflect.DeepEqual(va, vb) {
		c.Failf("files", "%d values are kept, with the same options directly %d", len(va), len(vb))
		return
	}
	for i := 0; i < metrics; i++ { // one after the other
		settle(fmt.Sprintf("workers%d", i), 5, 6, []byte("y"))
	}
	if na, nb := openFiles(dirA), openFiles(dirB); na != nb {
		c.Failf("handles", "with %d handles, %d files are open, with the same options directly %d", opts.Tuning.Handles, na, nb)
		return
	}
	stop()
	if ta, tb := tree(dirA), tree(dirB); ta != tb {
		c.Failf("files", "the files are %s, with the same options directly %s", ta, tb)
		return
	}
	c.Count("databases", 1)
	c.NonTrivial()
	c.Sig(opts)
}

// address gives every case an address of its own, on the loopback network.
func address(next *int64) string {
	n := atomic.AddInt64(next, 1)
	return fmt.Sprintf("127.%d.%d.%d:%d", 10+os.Getpid()%200, n/250%250, 1+n%250, 20000+n%97)
}

// listenerCase constructs several listeners.
func listenerCase(c *hk.C, next *int64) {
	cf := &conf{duration: time.Minute, dist: table{"tdigest": table{}}, database: table{"files": table{}}, listeners: make(map[string][]interface{})}
	var addrs []string
	for i := c.Range(1, 3); i > 0; i-- {
		addr := address(next)
		addrs = append(addrs, addr)
		cf.listeners["graphite"] = append(cf.listeners["graphite"], table{"address": addr})
	}
	got, err := load(c, cf.write(c))
	if err != nil {
		c.Failf("load", "%v", err)
		return
	}
	w := data.NewWriter(tdigest.Params{Compression: 5})
	lctx, cancel := context.WithCancel(ctx)
	var wg sync.WaitGroup
	defer wg.Wait()
	defer cancel()
	for _, e := range got.Listeners {
		l, err := registry.NewListener(ctx, e.Kind, e.Config)
		if err != nil {
			c.Failf("construct", "%v", err)
			return
		}
		wg.Add(1)
		go func() { defer wg.Done(); l.Run(lctx, w) }()
	}
	for _, addr := range addrs {
		deadline := time.Now().Add(20 * time.Second)
		for {
			conn, err := net.Dial("tcp", addr)
			if err == nil {
				conn.Close()
				break
			}
			if time.Now().After(deadline) {
				c.Failf("listener", "nothing listens on %s: %v", addr, err)
				return
			}
			time.Sleep(time.Millisecond)
		}
	}
	c.Count("listeners", int64(len(addrs)))
	c.NonTrivial()
	c.Sig(len(addrs))
}
