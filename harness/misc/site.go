package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"html/template"
	"io"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vivint/rothko/internal/tgzfs"
	"github.com/vivint/rothko/internal/tmplfs"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

func c30(r *hk.Run) {
	r.Rule("archives of random files and directories, with and without entries for the directories, with names that are nested, long, not clean or point upwards, with and without an index page, and with pages that are templates in different contexts, broken or fail; every file opened and read in pieces, directories listed in pieces, and the answers to requests with normal, missing, hostile paths, queries and ranges compared with an independent file system behind the standard file server. the same from many threads. archives with links, devices, conflicting entries, and damaged ones. non-trivial if files were served; distinct by archive shape")
	r.Cases("files", r.N(800, 30000), 8, siteFiles)
	r.Cases("http", r.N(1000, 40000), 8, siteHTTP)
	r.Cases("storm", r.N(40, 1000), 2, siteStorm)
	r.Cases("large", r.N(4, 60), 4, siteLarge)
	r.Require("most entries", 2000)
	r.Require("deepest path", 130)
	r.Require("largest file", 9<<20)
	r.Require("largest page", 1<<17)
	r.Cases("wild", r.N(600, 20000), 8, siteWild)
	for _, n := range []string{"opened", "defaults", "not found", "listings", "requests", "templates", "hostile values", "broken templates", "ranges", "damaged", "storm requests", "requests with unreadable files"} {
		r.Require(n, 100)
	}
}

//
// archives
//

type entry struct {
	name string
	dir  bool
	data []byte
	mod  time.Time
}

type site struct {
	entries []entry
	files   map[string]*entry          // by clean path
	dirs    map[string]map[string]bool // by clean path, the names of what is in it
	index   *entry
}

const injected = `<zz7>`

// page makes a page, which may be a template.
func page(c *hk.C) []byte {
	switch c.Intn(10) {
	case 0:
		return []byte("{{")
	case 1:
		return []byte("a {{.metric.nothing}} b")
	case 2:
		return []byte("<p>{{if .dev}}dev{{else}}no dev{{end}} {{len .query}}</p>")
	case 3:
		return nil
	case 4:
		return []byte("no actions at all <b>\xff\x00</b>")
	}
	var b strings.Builder
	b.WriteString("<!DOCTYPE html><html><body>\n")
	for i := c.Range(1, 5); i > 0; i-- {
		b.WriteString(c.PickS(
			`<h1>{{.metric}}</h1>`,
			`<a href="/api/render?{{.query}}">x</a>`,
			`<a href="/x?metric={{.metric}}">x</a>`,
			`<a title="{{.metric}}">x</a>`,
			`<a title='{{.query}}'>x</a>`,
			`<script>var m = {{.metric}}; var q = "{{.query}}";</script>`,
			`<style>p { color: {{.metric}} }</style>`,
			`<a onclick="f({{.query}})">x</a>`,
			`<textarea>{{.metric}}</textarea>`,
			`<img src="{{.metric}}">`,
			`<p>{{printf "%q" .metric}}</p>`,
			`<p>{{range $k, $v := .}}{{$k}}={{$v}};{{end}}</p>`,
		))
	}
	b.WriteString("</body></html>")
	return []byte(b.String())
}

func nameOf(c *hk.C) string {
	switch c.Intn(12) {
	case 0:
		return strings.Repeat("long", c.Range(10, 40))
	case 1:
		return c.PickS("ключ", "a b", "a%2fb", "x&y", "{{.}}", "...", "a\\b", "~", "con", "-")
	case 2:
		return c.PickS("index.html", "index.htm", "Index.html")
	case 3:
		return c.PickS(".hidden", "._a", ".well-known", ".htaccess", "a~", "#a#", "Thumbs.db", ".DS_Store", "a.map", "a.gz", "__MACOSX", "..a", "a..", "CVS", ".git", "robots.txt", "favicon.ico")
	}
	return c.PickS("a", "b", "c", "js", "css", "static") + c.PickS("", "", ".js", ".css", ".html", ".html", ".png", ".HTML", ".htm", ".xhtml", ".html.gz")
}

// makeSite makes an archive without conflicts.
func makeSite(c *hk.C) *site { return makeSiteOf(c, false) }

// makeSiteOf makes an archive, which may be one of many, deep and large files.
func makeSiteOf(c *hk.C, large bool) *site {
	s := &site{files: make(map[string]*entry), dirs: map[string]map[string]bool{"/": {}}}
	addDir := func(p string) bool {
		for q := p; q != "/"; q = path.Dir(q) {
			if s.files[q] != nil {
				return false
			}
		}
		for q := p; q != "/"; q = path.Dir(q) {
			for _, d := range []string{q, path.Dir(q)} {
				if s.dirs[d] == nil {
					s.dirs[d] = make(map[string]bool)
				}
			}
			s.dirs[path.Dir(q)][path.Base(q)] = true
		}
		return true
	}
	n := c.Pick(0, 1, 3, 10, c.Range(1, 30))
	if large {
		n = c.Range(2000, 6000)
	}
	withIndex := c.P(1, 2)
	for i := 0; i < n; i++ {
		parts := []string{}
		for d := c.Intn(4); d > 0; d-- {
			parts = append(parts, nameOf(c))
		}
		if large && i%50 == 0 {
			for d := c.Pick(20, 50, 130, 300); d > 0; d-- {
				parts = append(parts, c.PickS("a", "b", "dir"))
			}
			c.R.Max("deepest path", int64(len(parts)+1))
		} else if large {
			parts = append(parts, fmt.Sprintf("%d", i))
		}
		clean := "/" + strings.Join(append(parts, nameOf(c)), "/")
		if large && i == n-1 {
			clean = "/" + c.PickS("big.html", "big/page.html")
		}
		if large && i == n/2 {
			clean = "/" + c.PickS("large.bin", "large/file", "large.js")
		}
		if clean == "/index.html" || strings.HasPrefix(clean, "/index.html/") {
			continue
		}
		if c.P(1, 5) && !(large && (i == n/2 || i == n-1)) { // a directory
			if s.dirs[clean] != nil && c.P(1, 2) || s.files[clean] != nil || !addDir(clean) {
				continue
			}
			s.entries = append(s.entries, entry{name: spell(c, clean) + "/", dir: true})
			continue
		}
		if s.dirs[clean] != nil || !addDir(path.Dir(clean)) {
			continue
		}
		e := entry{name: spell(c, clean), mod: time.Unix(int64(c.Intn(1e9)), 0)}
		if strings.HasSuffix(clean, ".html") || c.P(1, 10) {
			e.data = page(c)
			if large && i == n-1 {
				e.data = []byte(strings.Repeat("<p>text</p>\n", c.Range(6000, 200000)) + "{{.metric}} <!-- -->\n" + strings.Repeat("<p>end</p>\n", 3000))
				c.R.Max("largest page", int64(len(e.data)))
			}
		} else {
			if large && i == n/2 {
				e.data = c.Bytes(c.Pick(9<<20, 17<<20))
				c.R.Max("largest file", int64(len(e.data)))
			} else {
				e.data = c.Bytes(c.Pick(0, 1, 511, 512, 513, c.Intn(5000)))
				if c.P(1, 1000) { // a large one
					e.data = c.Bytes(c.Pick(1<<16+1, 1<<20+1, 5<<20))
				}
			}
		}
		s.entries = append(s.entries, e)
		s.files[clean] = &s.entries[len(s.entries)-1]
		s.dirs[path.Dir(clean)][path.Base(clean)] = true
	}
	if withIndex {
		e := entry{name: c.PickS("index.html", "./index.html"), data: page(c), mod: time.Unix(int64(c.Intn(1e9)), 0)}
		at := c.Intn(len(s.entries) + 1)
		s.entries = append(s.entries[:at:at], append([]entry{e}, s.entries[at:]...)...)
		s.dirs["/"]["index.html"] = true
	}
	if c.P(1, 3) {
		s.entries = append([]entry{{name: c.PickS("./", "."), dir: true}}, s.entries...)
	}
	// the slice has moved
	s.files = make(map[string]*entry)
	for i := range s.entries {
		if e := &s.entries[i]; !e.dir {
			s.files[path.Clean("/"+e.name)] = e
		}
	}
	s.index = s.files["/index.html"]
	return s
}

// spell writes a clean path in one of the ways archives have it.
func spell(c *hk.C, clean string) string {
	p := clean[1:]
	switch c.Intn(8) {
	case 0, 1, 2:
		return "./" + p
	case 3:
		return strings.Replace(p, "/", "//", 1)
	case 4:
		return "x/../" + p
	case 5:
		return "../" + p
	}
	return p
}

func (s *site) archive(c *hk.C) []byte {
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	tw := tar.NewWriter(gz)
	for _, e := range s.entries {
		h := &tar.Header{Name: e.name, Mode: 0644, Size: int64(len(e.data)), ModTime: e.mod, Typeflag: tar.TypeReg}
		if e.dir {
			h.Typeflag, h.Mode = tar.TypeDir, 0755
		}
		if err := tw.WriteHeader(h); err != nil {
			panic(err)
		}
		if _, err := tw.Write(e.data); err != nil {
			panic(err)
		}
	}
	tw.Close()
	gz.Close()
	return buf.Bytes()
}

//
// the reference
//

// modelFS is a plain file system of the site.
type modelFS struct {
	s     *site
	fault faults
}

// faults are for files that can not be read.
type faults struct {
	after  int    // bytes that can be read
	suffix string // of the files that break, if any
}

var errBroken = errors.New("broken")

// left is how much of the file can be read, negative for everything.
func (f faults) left(name string) int {
	if f.suffix != "" && strings.HasSuffix(name, f.suffix) {
		return f.after
	}
	return -1
}

// PlugFS watches the files of a file system.
type PlugFS struct {
	http.FileSystem
	fault  faults
	mu     sync.Mutex
	opened int
	wrong  string
}

func (p *PlugFS) Open(name string) (http.File, error) {
	f, err := p.FileSystem.Open(name)
	if err != nil {
		return nil, err
	}
	p.mu.Lock()
	p.opened++
	p.mu.Unlock()
	return &PlugFile{File: f, fs: p, name: name, left: p.fault.left(name)}, nil
}

// left returns what is wrong with the use of the files.
func (p *PlugFS) check() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.wrong == "" && p.opened != 0 {
		return fmt.Sprintf("%d files are still open", p.opened)
	}
	return p.wrong
}

// PlugFile is a file that is watched.
type PlugFile struct {
	http.File
	fs     *PlugFS
	name   string
	left   int
	closed bool
}

func (p *PlugFile) use(what string) error {
	p.fs.mu.Lock()
	defer p.fs.mu.Unlock()
	if p.closed {
		p.fs.wrong = what + " of the closed file " + p.name
		return os.ErrClosed
	}
	return nil
}

func (p *PlugFile) Close() error {
	if err := p.use("close"); err != nil {
		return err
	}
	p.fs.mu.Lock()
	p.closed = true
	p.fs.opened--
	p.fs.mu.Unlock()
	return p.File.Close()
}

func (p *PlugFile) Read(b []byte) (int, error) {
	if err := p.use("read"); err != nil {
		return 0, err
	}
	return readLeft(p.File, b, &p.left)
}

func (p *PlugFile) Seek(off int64, whence int) (int64, error) {
	if err := p.use("seek"); err != nil {
		return 0, err
	}
	return p.File.Seek(off, whence)
}

func (p *PlugFile) Stat() (os.FileInfo, error) {
	if err := p.use("stat"); err != nil {
		return nil, err
	}
	return p.File.Stat()
}

func (p *PlugFile) Readdir(n int) ([]os.FileInfo, error) {
	if err := p.use("listing"); err != nil {
		return nil, err
	}
	return p.File.Readdir(n)
}

// readLeft reads until nothing is left.
func readLeft(r io.Reader, b []byte, left *int) (int, error) {
	if *left < 0 {
		return r.Read(b)
	}
	if *left == 0 {
		return 0, errBroken
	}
	if len(b) > *left {
		b = b[:*left]
	}
	n, err := r.Read(b)
	*left -= n
	return n, err
}

func (m modelFS) Open(name string) (http.File, error) {
	p := path.Clean("/" + name)
	if e := m.s.files[p]; e != nil {
		return &modelFile{Reader: bytes.NewReader(e.data), info: modelInfo{path.Base(p), int64(len(e.data)), false}, left: m.fault.left(name)}, nil
	}
	if names := m.s.dirs[p]; names != nil {
		f := &modelFile{Reader: bytes.NewReader(nil), info: modelInfo{path.Base(p), 0, true}, left: m.fault.left(name)}
		for n := range names {
			f.list = append(f.list, modelInfo{n, 0, m.s.dirs[path.Join(p, n)] != nil})
		}
		return f, nil
	}
	if e := m.s.index; e != nil {
		return &modelFile{Reader: bytes.NewReader(e.data), info: modelInfo{"index.html", int64(len(e.data)), false}, left: m.fault.left(name)}, nil
	}
	return nil, os.ErrNotExist
}

// modelTemplates expands the pages of another file system.
type modelTemplates struct {
	fs  http.FileSystem
	req *http.Request
}

func (m modelTemplates) Open(name string) (http.File, error) {
	f, err := m.fs.Open(name)
	if err != nil || !strings.HasSuffix(name, ".html") {
		return f, err
	}
	data, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}
	tmpl, err := template.New("").Parse(string(data))
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	if err := tmpl.Execute(&buf, map[string]interface{}{
		"query":  m.req.URL.RawQuery,
		"metric": m.req.FormValue("metric"),
		"dev":    os.Getenv("ROTHKO_DEV") != "",
	}); err != nil {
		return nil, err
	}
	mf := f.(*modelFile)
	mf.Reader, mf.left = bytes.NewReader(buf.Bytes()), -1
	if !mf.info.dir {
		mf.info.size = int64(buf.Len())
	}
	return mf, nil
}

type modelInfo struct {
	name string
	size int64
	dir  bool
}

func (m modelInfo) Name() string { return m.name }
func (m modelInfo) Size() int64  { return m.size }
func (m modelInfo) Mode() os.FileMode {
	if m.dir {
		return os.ModeDir
	}
	return 0644
}
func (m modelInfo) ModTime() time.Time { return time.Time{} }
func (m modelInfo) IsDir() bool        { return m.dir }
func (m modelInfo) Sys() interface{}   { return nil }

type modelFile struct {
	*bytes.Reader
	info modelInfo
	list []os.FileInfo
	left int
}

func (m *modelFile) Read(b []byte) (int, error) { return readLeft(m.Reader, b, &m.left) }
func (m *modelFile) Close() error               { return nil }
func (m *modelFile) Stat() (os.FileInfo, error) { return m.info, nil }
func (m *modelFile) Readdir(n int) ([]os.FileInfo, error) {
	l := m.list
	m.list = nil
	return l, nil
}

//
// files
//

// paths makes paths to ask for.
func (s *site) path(c *hk.C) string {
	var known []string
	for p := range s.files {
		known = append(known, p)
	}
	for p := range s.dirs {
		known = append(known, p)
	}
	sort.Strings(known)
	p := known[c.Intn(len(known))]
	switch c.Intn(12) {
	case 0, 1, 2, 3, 4:
		return p
	case 5:
		return p + "/"
	case 6:
		return p + c.PickS("x", "/x", "/index.html", "/..", "/.", "/../..", ".html")
	case 7:
		return c.PickS("/..", "../..", "//", "/./", "/a/../..", "") + p
	case 8:
		return c.PickS("", "/", "//", ".", "..", "/etc/passwd", "/../../../../etc/passwd", "\x00", "/\xff", "/index.html", "index.html", "/nothing.html", "/nothing/x.html", "/%2e%2e/", "\\..\\x")
	case 9:
		return p[1:]
	case 10:
		return path.Dir(p)
	}
	return "/" + nameOf(c) + "/" + nameOf(c)
}

func siteFiles(c *hk.C) {
	s := makeSite(c)
	var fs *tgzfs.FS
	var err error
	c.Guard("new", func() { fs, err = tgzfs.New(s.archive(c)) })
	if c.Failed() {
		return
	}
	if err != nil {
		c.Failf("new", "the archive was refused: %v", err)
		return
	}
	for i := range s.entries {
		c.Logf("entry %q dir=%v %d bytes", s.entries[i].name, s.entries[i].dir, len(s.entries[i].data))
	}
	var asked []string
	for p := range s.files {
		asked = append(asked, p)
	}
	for p := range s.dirs {
		asked = append(asked, p)
	}
	sort.Strings(asked)
	for i := 0; i < 10; i++ {
		asked = append(asked, s.path(c))
	}
	for _, p := range asked {
		if !s.open(c, fs, p) {
			return
		}
	}
	if len(s.files) > 1 {
		c.NonTrivial()
	}
	c.Sig(len(s.files), len(s.dirs), s.index != nil, len(s.entries))
}

func (s *site) open(c *hk.C, fs http.FileSystem, p string) bool {
	wantF, wantErr := modelFS{s: s}.Open(p)
	var f http.File
	var err error
	ok := false
	c.Guard(fmt.Sprintf("open %q", p), func() {
		f, err = fs.Open(p)
		if wantErr != nil {
			if err == nil || !os.IsNotExist(err) {
				c.Failf("not-found", "%q is not there, opening it: %v", p, err)
				return
			}
			c.Count("not found", 1)
			ok = true
			return
		}
		if err != nil {
			c.Failf("open", "%q can not be opened: %v", p, err)
			return
		}
		defer f.Close()
		info, err := f.Stat()
		if err != nil {
			c.Failf("stat", "%q: %v", p, err)
			return
		}
		want := wantF.(*modelFile)
		if info.IsDir() != want.info.dir {
			c.Failf("kind", "%q: directory: %v, should be %v", p, info.IsDir(), want.info.dir)
			return
		}
		if want.info.dir {
			ok = s.list(c, f, p, want)
			return
		}
		if e := s.files[path.Clean("/"+p)]; e == nil {
			c.Count("defaults", 1)
		}
		data, _ := ioutil.ReadAll(want)
		if info.Size() != int64(len(data)) || info.Name() != want.info.name {
			c.Failf("stat", "%q: size %d name %q, should be %d %q", p, info.Size(), info.Name(), len(data), want.info.name)
			return
		}
		// read in pieces
		var got []byte
		buf := make([]byte, c.Pick(1, 7, 512, 10000))
		for {
			n, err := f.Read(buf)
			got = append(got, buf[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil || len(got) > len(data)+20000 {
				c.Failf("read", "%q: %v after %d bytes", p, err, len(got))
				return
			}
		}
		if !bytes.Equal(got, data) {
			c.Failf("content", "%q: %d bytes are not what is in the archive (%d bytes)", p, len(got), len(data))
			return
		}
		// and from somewhere else
		off := int64(c.Intn(len(data) + 1))
		if pos, err := f.Seek(-off, io.SeekEnd); err != nil || pos != int64(len(data))-off {
			c.Failf("seek", "%q: %d %v", p, pos, err)
			return
		}
		rest, err := ioutil.ReadAll(f)
		if err != nil || !bytes.Equal(rest, data[int64(len(data))-off:]) {
			c.Failf("content", "%q: different after seeking (%v)", p, err)
			return
		}
		// other handles and what is done to the bytes do not matter
		for i := range got {
			got[i] ^= 0xff
		}
		f2, err := fs.Open(p)
		if err != nil {
			c.Failf("open", "%q can not be opened again: %v", p, err)
			return
		}
		again, _ := ioutil.ReadAll(f2)
		if !bytes.Equal(again, data) {
			c.Failf("content", "%q: different when opened again", p)
			return
		}
		c.Count("opened", 1)
		ok = true
	})
	return ok && !c.Failed()
}

func (s *site) list(c *hk.C, f http.File, p string, want *modelFile) bool {
	var got []string
	count := c.Pick(-1, 0, 1, 2, 100)
	for i := 0; ; i++ {
		infos, err := f.Readdir(count)
		if count > 0 && len(infos) > count {
			c.Failf("list", "%q: %d entries where %d were asked for", p, len(infos), count)
			return false
		}
		for _, info := range infos {
			got = append(got, fmt.Sprintf("%s dir=%v", info.Name(), info.IsDir()))
		}
		if count <= 0 {
			if err != nil {
				c.Failf("list", "%q: %v", p, err)
				return false
			}
			break
		}
		if err == io.EOF {
			break
		}
		if err != nil || len(infos) == 0 || i > 10000 {
			c.Failf("list", "%q: %d entries, %v", p, len(infos), err)
			return false
		}
	}
	var names []string
	for _, info := range want.list {
		names = append(names, fmt.Sprintf("%s dir=%v", info.Name(), info.IsDir()))
	}
	sort.Strings(got)
	sort.Strings(names)
	if strings.Join(got, "\n") != strings.Join(names, "\n") {
		c.Failf("list", "%q lists %q, should be %q", p, got, names)
		return false
	}
	c.Count("listings", 1)
	return true
}

//
// HTTP
//

type answer struct {
	code           int
	body           []byte
	location, kind string
	length, ranges string
}

func serve(h http.Handler, req *http.Request) answer {
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	return answer{rec.Code, rec.Body.Bytes(), rec.Header().Get("Location"), rec.Header().Get("Content-Type"),
		rec.Header().Get("Content-Length"), rec.Header().Get("Content-Range")}
}

func (a answer) diff(b answer) string {
	switch {
	case a.code != b.code:
		return fmt.Sprintf("status %d, should be %d (%.200q)", a.code, b.code, a.body)
	case !bytes.Equal(a.body, b.body):
		return fmt.Sprintf("%d bytes %.200q, should be %d bytes %.200q", len(a.body), a.body, len(b.body), b.body)
	case a.location != b.location:
		return fmt.Sprintf("redirected to %q, should be %q", a.location, b.location)
	case a.kind != b.kind:
		return fmt.Sprintf("content type %q, should be %q", a.kind, b.kind)
	case a.length != b.length:
		return fmt.Sprintf("content length %q, should be %q", a.length, b.length)
	case a.ranges != b.ranges:
		return fmt.Sprintf("range %q, should be %q", a.ranges, b.ranges)
	}
	return ""
}

// request makes a function that makes equal requests.
func request(c *hk.C, p string) (func() *http.Request, bool) {
	method := c.PickS("GET", "GET", "GET", "HEAD", "POST")
	hostile := c.P(1, 2)
	metric := c.PickS("some.metric", "a b", "")
	if hostile {
		metric = c.PickS(injected, `"`+injected, `'`+injected+`"`, `</script>`+injected, `-->`+injected, "javascript:alert(1)"+injected,
			"\x00"+injected, "`${}`"+injected, `\`+injected, "{{.query}}"+injected, "\u2028"+injected, "]]>"+injected)
	}
	raw := url.Values{"metric": {metric}}.Encode()
	switch {
	case c.P(1, 5):
		raw = ""
	case c.P(1, 4):
		raw = "metric=" + metric // not encoded
	case c.P(1, 4):
		raw += "&" + c.PickS("x=%zz", "=", "&&", "a;b", "metric=second", `"onload="`+injected)
	}
	rng := ""
	if c.P(1, 6) {
		rng = c.PickS("bytes=0-3", "bytes=1-", "bytes=-2", "bytes=5-2", "bytes=99999-", "x", "bytes=0-0,2-3")
		if strings.Contains(rng, ",") {
			rng = "bytes=0-0" // several are separated by something random
		}
		c.Count("ranges", 1)
	}
	body := ""
	if method == "POST" {
		body = url.Values{"metric": {metric + "posted"}}.Encode()
	}
	return func() *http.Request {
		req := httptest.NewRequest(method, "http://host/", strings.NewReader(body))
		req.URL = &url.URL{Path: p, RawQuery: raw}
		if method == "POST" {
			req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		}
		if rng != "" {
			req.Header.Set("Range", rng)
		}
		return req
	}, hostile
}

func siteHTTP(c *hk.C) {
	s := makeSite(c)
	var fs *tgzfs.FS
	var err error
	c.Guard("new", func() { fs, err = tgzfs.New(s.archive(c)) })
	if c.Failed() {
		return
	}
	if err != nil {
		c.Failf("new", "the archive was refused: %v", err)
		return
	}
	pfs := &PlugFS{FileSystem: fs}
	if c.P(1, 4) {
		pfs.fault = faults{c.Pick(0, 1, 100, 512, 600), c.PickS(".html", ".js", ".css", "index.html", "a", "b", "/")}
	}
	h := tmplfs.New(pfs)
	for i := 0; i < 12; i++ {
		if !s.request(c, pfs, h, s.path(c)) {
			return
		}
	}
	if len(s.files) > 1 {
		c.NonTrivial()
	}
	c.Sig(len(s.files), len(s.dirs), s.index != nil, len(s.entries))
	if c.Index < 2 {
		var names []string
		for _, e := range s.entries {
			names = append(names, e.name)
		}
		c.Sample(names)
	}
}

func (s *site) request(c *hk.C, pfs *PlugFS, h http.Handler, p string) bool {
	mk, hostile := request(c, p)
	// follow what the file server redirects to
	for hop := 0; hop < 4; hop++ {
		var got answer
		what := fmt.Sprintf("%s %q query %q range %q", mk().Method, p, mk().URL.RawQuery, mk().Header.Get("Range"))
		c.Guard(what, func() { got = serve(h, mk()) })
		if c.Failed() {
			return false
		}
		req := mk()
		want := serve(http.FileServer(modelTemplates{modelFS{s, pfs.fault}, req}), req)
		c.Count("requests", 1)
		if pfs.fault.suffix != "" {
			c.Count("requests with unreadable files", 1)
		}
		if w := pfs.check(); w != "" {
			c.Failf("files", "%s: %s", what, w)
			return false
		}
		if d := got.diff(want); d != "" {
			for _, e := range s.entries {
				c.Logf("entry %q dir=%v %d bytes", e.name, e.dir, len(e.data))
			}
			c.Failf("answer", "%s: %s", what, d)
			return false
		}
		if got.code == 500 {
			c.Count("broken templates", 1)
		}
		if got.code < 300 && strings.HasPrefix(got.kind, "text/html") && mk().Method != "HEAD" {
			if bytes.Contains(got.body, []byte(injected)) {
				c.Failf("injected", "%s: a value appears unescaped: %.300q", what, got.body)
				return false
			}
			if hostile {
				c.Count("hostile values", 1)
			}
			c.Count("templates", 1)
		}
		if got.code != http.StatusMovedPermanently && got.code != http.StatusTemporaryRedirect && got.code != http.StatusPermanentRedirect {
			return true
		}
		loc, err := url.Parse(got.location)
		if err != nil {
			return true
		}
		base := url.URL{Path: path.Clean("/"+p) + "/"}
		if !strings.HasSuffix(p, "/") {
			base.Path = path.Clean("/" + p)
		}
		next := base.ResolveReference(loc)
		p = next.Path
		old := mk
		mk = func() *http.Request {
			req := old()
			req.URL = &url.URL{Path: next.Path, RawQuery: next.RawQuery}
			return req
		}
	}
	return true
}

// siteLarge serves many, deep and large files.
func siteLarge(c *hk.C) {
	s := makeSiteOf(c, true)
	var fs *tgzfs.FS
	var err error
	c.Guard("new", func() { fs, err = tgzfs.New(s.archive(c)) })
	if c.Failed() {
		return
	}
	if err != nil {
		c.Failf("new", "the archive of %d entries was refused: %v", len(s.entries), err)
		return
	}
	c.R.Max("most entries", int64(len(s.entries)))
	pfs := &PlugFS{FileSystem: fs}
	h := tmplfs.New(pfs)
	var asked []string
	for p, e := range s.files {
		if len(asked) < 300 || strings.Count(p, "/") > 16 || len(e.data) > 1<<16 {
			asked = append(asked, p)
		}
	}
	for p := range s.dirs {
		if len(asked) < 500 {
			asked = append(asked, p)
		}
	}
	sort.Strings(asked)
	asked = append(asked, "/", s.entries[len(s.entries)-1].name)
	for _, p := range asked {
		if !s.open(c, fs, p) || !s.request(c, pfs, h, p) {
			return
		}
	}
	c.NonTrivial()
	c.Sig("large", len(s.files), len(s.dirs))
}

// siteStorm serves a site to many threads.
func siteStorm(c *hk.C) {
	s := makeSite(c)
	fs, err := tgzfs.New(s.archive(c))
	if err != nil {
		c.Failf("new", "the archive was refused: %v", err)
		return
	}
	h := tmplfs.New(fs)
	type job struct {
		mk   func() *http.Request
		want answer
	}
	var jobs []job
	for i := 0; i < 30; i++ {
		mk, _ := request(c, s.path(c))
		req := mk()
		jobs = append(jobs, job{mk, serve(http.FileServer(modelTemplates{modelFS{s: s}, req}), req)})
	}
	var wg sync.WaitGroup
	for t := 0; t < 8; t++ {
		rnd := hk.NewRand(c.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 40; i++ {
				j := jobs[rnd.Intn(len(jobs))]
				var got answer
				c.Guard("storm", func() { got = serve(h, j.mk()) })
				if d := got.diff(j.want); d != "" {
					c.Failf("storm", "%q: %s", j.mk().URL, d)
					return
				}
				c.Count("storm requests", 1)
			}
		}()
	}
	wg.Wait()
	c.NonTrivial()
}

// siteWild serves archives that contain anything.
func siteWild(c *hk.C) {
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	tw := tar.NewWriter(gz)
	var names []string
	for i := c.Intn(12); i > 0; i-- {
		name := nameOf(c)
		switch c.Intn(6) {
		case 0:
			name = c.PickS("", "/", ".", "..", "./", "../../x", "/abs", "a//", "\x01", "index.html/", "./index.html", "index.html", "a/index.html")
		case 1, 2:
			if len(names) > 0 { // below or the same as another
				name = names[c.Intn(len(names))] + c.PickS("", "/x", "/", "/../y", "/index.html")
			}
		}
		names = append(names, name)
		h := &tar.Header{Name: name, Mode: 0644, ModTime: time.Unix(int64(c.Intn(1e9)), 0), Format: tar.FormatPAX}
		h.Typeflag = []byte{tar.TypeReg, tar.TypeReg, tar.TypeReg, tar.TypeDir, tar.TypeSymlink, tar.TypeLink, tar.TypeChar, tar.TypeFifo}[c.Intn(8)]
		var data []byte
		if h.Typeflag == tar.TypeReg {
			data = page(c)
			h.Size = int64(len(data))
		} else {
			h.Linkname = c.PickS("/etc/passwd", "../..", "a", "")
		}
		if tw.WriteHeader(h) != nil {
			continue
		}
		tw.Write(data)
	}
	tw.Close()
	gz.Close()
	data := buf.Bytes()
	damaged := c.P(1, 2)
	if damaged {
		switch c.Intn(3) {
		case 0:
			data = data[:c.Intn(len(data))]
		case 1:
			for i := c.Range(1, 4); i > 0; i-- {
				data[c.Intn(len(data))] ^= byte(1 << uint(c.Intn(8)))
			}
		default: // something else that is compressed
			var b bytes.Buffer
			g := gzip.NewWriter(&b)
			g.Write(c.Bytes(c.Intn(3000)))
			g.Close()
			data = b.Bytes()
		}
		c.Count("damaged", 1)
	}
	var fs *tgzfs.FS
	var err error
	c.Guard("new", func() { fs, err = tgzfs.New(data) })
	if c.Failed() {
		return
	}
	if err != nil {
		if !damaged {
			c.Failf("new", "the archive was refused: %v", err)
		}
		return
	}
	h := tmplfs.New(fs)
	for i := 0; i < 20; i++ {
		p := c.PickS("/", "", "/index.html", "/x", "/../x", "/a/")
		if len(names) > 0 && c.P(2, 3) {
			p = "/" + names[c.Intn(len(names))] + c.PickS("", "", "/", "/x")
		}
		mk, _ := request(c, p)
		var got answer
		what := fmt.Sprintf("wild %q", p)
		c.Guard(what, func() { got = serve(h, mk()) })
		if c.Failed() {
			return
		}
		if bytes.Contains(got.body, []byte("root:x:0")) {
			c.Failf("escape", "%s: %.100q", what, got.body)
			return
		}
		if got.code < 200 || got.code > 599 {
			c.Failf("answer", "%s: status %d", what, got.code)
			return
		}
	}
	c.NonTrivial()
	c.Sig(names)
}
