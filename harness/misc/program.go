package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

// PlugLogger writes down everything that it is given, in several formats.
type PlugLogger struct {
	mu sync.Mutex
	f  *os.File
}

func (l *PlugLogger) log(msg string, kv []interface{}) {
	l.mu.Lock()
	defer l.mu.Unlock()
	fmt.Fprintf(l.f, "ENTRY %s\n", msg)
	for _, v := range kv {
		fmt.Fprintf(l.f, "%v\n%+v\n%#v\n%s\n", v, v, v, v)
		if data, err := json.Marshal(v); err == nil {
			fmt.Fprintf(l.f, "%s\n", data)
		}
	}
}

func (l *PlugLogger) Infow(msg string, kv ...interface{})  { l.log(msg, kv) }
func (l *PlugLogger) Errorw(msg string, kv ...interface{}) { l.log(msg, kv) }

// runChild is the real program, with a logger that records everything.
func runChild(r *hk.Run) {
	f, err := os.Create(os.Getenv("RUN_LOG"))
	if err != nil {
		panic(err)
	}
	external.Default.Logger = &PlugLogger{f: f}
	os.Args = []string{"rothko", "run", os.Getenv("RUN_CONFIG")}
	rothko.Main()
}

// writeCert makes a certificate.
func writeCert(dir string, names ...string) (cert, key string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	kder, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		panic(err)
	}
	cert, key = filepath.Join(dir, names[0]), filepath.Join(dir, names[1])
	ioutil.WriteFile(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	ioutil.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kder}), 0600)
	return cert, key
}

func programCase(c *hk.C, next *int64) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	secret := func(s string) string { return fmt.Sprintf("%s-%x", s, c.U64()) }
	cf := &conf{duration: time.Hour, dist: table{"tdigest": table{"compression": 10.0}}, listeners: make(map[string][]interface{})}
	cf.database = table{"files": table{"directory": filepath.Join(dir, "data"), "size": int64(256), "cap": int64(10), "files": int64(1)}}
	lis := address(next)
	cf.listeners["graphite"] = []interface{}{table{"address": lis}}
	cf.api.address = address(next)
	if c.P(1, 2) {
		cf.api.origin = "http://" + secret("origin") + ".example"
	}
	secured := c.P(2, 3)
	if secured {
		cf.api.user, cf.api.pass = secret("user"), secret("pass")
	}
	mode := c.Pick(0, 0, 1, 1, 2, 3)
	if c.Index < 4 {
		mode = c.Index
	}
	scheme := "http"
	switch mode {
	case 1:
		cf.api.cert, cf.api.key = writeCert(dir, secret("cert"), secret("key"))
		scheme = "https"
	case 2: // not there
		cf.api.cert, cf.api.key = filepath.Join(dir, secret("cert")), filepath.Join(dir, secret("key"))
	case 3: // one without the other
		cf.api.cert, cf.api.key = writeCert(dir, secret("cert"), secret("key"))
		if c.P(1, 2) {
			cf.api.cert = ""
		} else {
			cf.api.key = ""
		}
	}
	path := filepath.Join(dir, "rothko.toml")
	if err := ioutil.WriteFile(path, []byte(cf.write(c)), 0600); err != nil {
		panic(err)
	}

	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	logPath := filepath.Join(dir, "log")
	cmd := exec.Command(exe, "-prop", "run-child", "-scratch", dir, "-out", filepath.Join(dir, "verdict"))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "RUN_LOG="+logPath, "RUN_CONFIG="+path)
	var output bytes.Buffer
	cmd.Stdout, cmd.Stderr = &output, &output
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	defer func() {
		cmd.Process.Kill()
		select {
		case <-exited:
		case <-time.After(10 * time.Second):
		}
	}()

	if mode >= 2 {
		select {
		case err := <-exited:
			if err == nil {
				c.Failf("tls", "a tls section that can not be used is ignored")
				return
			}
			exited <- nil
		case <-time.After(60 * time.Second):
			c.Failf("tls", "with a tls section that can not be used (certificate %q, key %q) the program goes on", cf.api.cert, cf.api.key)
			return
		}
		checkLog(c, cf, logPath, "")
		c.Count("programs", 1)
		c.NonTrivial()
		return
	}

	client := &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{
		DisableKeepAlives: true, TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}}
	get := func(user, pass string) (*http.Response, error) {
		req, err := http.NewRequest("GET", scheme+"://"+cf.api.address+"/api/query?query=", nil)
		if err != nil {
			panic(err)
		}
		if user != "" || pass != "" {
			req.SetBasicAuth(user, pass)
		}
		resp, err := client.Do(req)
		if err == nil {
			ioutil.ReadAll(resp.Body)
			resp.Body.Close()
		}
		return resp, err
	}
	deadline := time.Now().Add(60 * time.Second)
	for {
		_, err := get(cf.api.user, cf.api.pass)
		if err == nil {
			break
		}
		select {
		case err := <-exited:
			exited <- err
			if strings.Contains(output.String(), "address already in use") {
				return // someone else's
			}
			c.Failf("start", "the program ended with %v: %s", err, output.String())
			return
		default:
		}
		if time.Now().After(deadline) {
			c.Failf("start", "the API does not answer: %v", err)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	resp, err := get(cf.api.user, cf.api.pass)
	if err != nil || resp.StatusCode != 200 {
		c.Failf("credentials", "the configured credentials are refused: %v %v", resp, err)
		return
	}
	origin := cf.api.origin
	if origin == "" {
		origin = "*"
	}
	if got := resp.Header.Get("Access-Control-Allow-Origin"); got != origin {
		c.Failf("origin", "the origin is %q, should be %q", got, origin)
		return
	}
	if secured {
		for _, w := range [][2]string{{"", ""}, {cf.api.user, ""}, {cf.api.user, "x" + cf.api.pass}, {"x" + cf.api.user, cf.api.pass}, {cf.api.pass, cf.api.user}} {
			resp, err := get(w[0], w[1])
			if err != nil || resp.StatusCode == 200 {
				c.Failf("credentials", "%q is accepted: %v %v", w, resp, err)
				return
			}
		}
	}
	if conn, err := net.Dial("tcp", lis); err != nil {
		c.Failf("listener", "nothing listens on the configured address: %v", err)
		return
	} else {
		fmt.Fprintf(conn, "metric 5 1\n")
		conn.Close()
	}
	time.Sleep(time.Duration(c.Intn(20)) * time.Millisecond)
	cmd.Process.Signal(syscall.SIGINT)
	select {
	case err := <-exited:
		exited <- err
		if err != nil {
			c.Failf("exit", "the program ended with %v: %s", err, output.String())
			return
		}
	case <-time.After(75 * time.Second):
		c.Failf("exit", "the program does not end")
		return
	}
	checkLog(c, cf, logPath, output.String())
	c.Count("programs", 1)
	c.NonTrivial()
	c.Sig(mode, secured, cf.api.origin != "")
}

// checkLog looks for secrets.
func checkLog(c *hk.C, cf *conf, path, output string) {
	data, err := ioutil.ReadFile(path)
	if err != nil {
		panic(err)
	}
	n := strings.Count(string(data), "ENTRY ")
	if n == 0 {
		panic("harness: nothing was logged")
	}
	c.Count("log entries", int64(n))
	for what, s := range map[string]string{"user name": cf.api.user, "password": cf.api.pass, "key": filepath.Base(cf.api.key), "certificate": filepath.Base(cf.api.cert)} {
		if len(s) > 5 && strings.Contains(string(data)+output, s) {
			for _, line := range strings.Split(string(data)+output, "\n") {
				if strings.Contains(line, s) {
					c.Failf("logged", "the %s is logged: %s", what, line)
					return
				}
			}
		}
	}
}
