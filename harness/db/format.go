package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	_ "github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/internal/zzverif/hk"
)

// what is stored outlives the program that stored it. this is an independent
// implementation of the format that the first version has, and the monitor
// that compares what it reads and writes with what the program does.

const (
	slotComplete = 2
	slotBegin    = 3
	slotContinue = 4
	slotEnd      = 5
)

var castagnoli = crc32.MakeTable(0x82f63b78)

// slot encodes a record.
func slot(kind byte, start, end int64, payload []byte) []byte {
	b := []byte{1, kind}
	b = binary.BigEndian.AppendUint64(b, uint64(start))
	b = binary.BigEndian.AppendUint64(b, uint64(end))
	b = binary.BigEndian.AppendUint16(b, uint16(len(payload)))
	crc := crc32.Update(crc32.Checksum(b, castagnoli), castagnoli, payload)
	b = binary.BigEndian.AppendUint32(b, crc)
	return append(b, payload...)
}

type oldSlot struct {
	kind       byte
	start, end int64
	payload    []byte
}

// unslot decodes a record.
func unslot(b []byte) (s oldSlot, err error) {
	if len(b) < header || b[0] != 1 {
		return s, errors.New("no record of version 1")
	}
	n := int(binary.BigEndian.Uint16(b[18:]))
	if len(b) < header+n {
		return s, errors.New("size too large")
	}
	s = oldSlot{b[1], int64(binary.BigEndian.Uint64(b[2:])), int64(binary.BigEndian.Uint64(b[10:])), b[header : header+n]}
	if crc := crc32.Update(crc32.Checksum(b[:20], castagnoli), castagnoli, s.payload); crc != binary.BigEndian.Uint32(b[20:]) {
		return s, errors.New("checksum")
	}
	return s, nil
}

// fields are what a protobuf message is made of.
type field struct {
	num  int
	wire int
	val  uint64
	data []byte
}

func appendField(b []byte, f field) []byte {
	b = binary.AppendUvarint(b, uint64(f.num)<<3|uint64(f.wire))
	switch f.wire {
	case 0:
		b = binary.AppendUvarint(b, f.val)
	case 1:
		b = binary.LittleEndian.AppendUint64(b, f.val)
	case 2:
		b = binary.AppendUvarint(b, uint64(len(f.data)))
		b = append(b, f.data...)
	case 5:
		b = binary.LittleEndian.AppendUint32(b, uint32(f.val))
	}
	return b
}

func parseFields(b []byte) (out []field, err error) {
	for len(b) > 0 {
		key, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errors.New("key")
		}
		b = b[n:]
		f := field{num: int(key >> 3), wire: int(key & 7)}
		switch f.wire {
		case 0:
			f.val, n = binary.Uvarint(b)
			if n <= 0 {
				return nil, errors.New("varint")
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return nil, errors.New("fixed64")
			}
			f.val = binary.LittleEndian.Uint64(b)
			b = b[8:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return nil, errors.New("bytes")
			}
			f.data = b[n : n+int(l)]
			b = b[n+int(l):]
		default:
			return nil, fmt.Errorf("wire type %d", f.wire)
		}
		out = append(out, f)
	}
	return out, nil
}

// oldMeta is what the first slot of a file has.
type oldMeta struct {
	size, head         int
	start, end, smalle int64
}

func (m oldMeta) bytes() []byte {
	var b []byte
	for i, v := range []int64{int64(m.size), int64(m.head), m.start, m.end, m.smalle} {
		if v != 0 {
			b = appendField(b, field{num: i + 1, val: uint64(v)})
		}
	}
	return slot(slotComplete, 0, 0, b)
}

func parseMeta(b []byte) (m oldMeta, err error) {
	s, err := unslot(b)
	if err != nil {
		return m, err
	}
	if s.kind != slotComplete {
		return m, fmt.Errorf("the metadata is a record of kind %d", s.kind)
	}
	fs, err := parseFields(s.payload)
	if err != nil {
		return m, err
	}
	for _, f := range fs {
		switch f.num {
		case 1:
			m.size = int(int32(f.val))
		case 2:
			m.head = int(int32(f.val))
		case 3:
			m.start = int64(f.val)
		case 4:
			m.end = int64(f.val)
		case 5:
			m.smalle = int64(f.val)
		}
	}
	return m, nil
}

// oldDir is the directory of a metric.
func oldDir(name string) string {
	var out strings.Builder
	lead := len(name) - len(strings.TrimLeft(name, "."))
	if lead == len(name) {
		return strings.Repeat("%2e", lead)
	}
	trail := len(name) - len(strings.TrimRight(name, "."))
	if lead > 0 {
		out.WriteString(strings.Repeat("%2e", lead) + "/")
	}
	mid := name[lead : len(name)-trail]
	for i := 0; i < len(mid); i++ {
		switch {
		case mid[i] == '.' && mid[i-1] == '.':
			out.WriteString("%2e")
		case mid[i] == '.':
			out.WriteByte('/')
		case mid[i] == '/':
			out.WriteString("%2f")
		case mid[i] == '%':
			out.WriteString("%25")
		default:
			out.WriteByte(mid[i])
		}
	}
	if trail > 0 {
		out.WriteString("/" + strings.Repeat("%2e", trail))
	}
	return out.String()
}

// oldFile makes a data file with as many of the values as fit, and returns
// how many did.
func oldFile(size, cap int, vals []value) ([]byte, int) {
	buf := make([]byte, size*(cap+1))
	m := oldMeta{size: size, head: cap - 1}
	chunk := size - header
	n := 0
	for _, v := range vals {
		nr := (len(v.data) + chunk - 1) / chunk
		if nr == 0 {
			nr = 1
		}
		if nr > m.head+1 {
			break
		}
		first := m.head - nr + 1
		rest := v.data
		for i := 0; i < nr; i++ {
			part := rest[:min(len(rest), chunk)]
			rest = rest[len(part):]
			kind := byte(slotContinue)
			switch {
			case nr == 1:
				kind = slotComplete
			case i == 0:
				kind = slotBegin
			case i == nr-1:
				kind = slotEnd
			}
			copy(buf[(first+i+1)*size:], slot(kind, v.start, v.end, part))
		}
		m.head = first - 1
		if n == 0 {
			m.start, m.smalle = v.start, v.end
		}
		m.end = v.end
		n++
	}
	copy(buf, m.bytes())
	return buf, n
}

// readOldFile reads a data file the way the first version does: newest first.
func readOldFile(buf []byte) (out []value, err error) {
	m, err := parseMeta(buf)
	if err != nil {
		return nil, fmt.Errorf("metadata: %v", err)
	}
	if m.size < header || m.size > len(buf) || len(buf)%m.size != 0 {
		return nil, fmt.Errorf("size of records: %d in a file of %d bytes", m.size, len(buf))
	}
	slots := len(buf)/m.size - 1
	if m.head < -1 || m.head >= slots {
		return nil, fmt.Errorf("head %d of %d slots", m.head, slots)
	}
	at := func(i int) []byte { return buf[(i+1)*m.size : (i+2)*m.size] }
	i := 0
	for i < slots && at(i)[0] == 0 {
		i++
	}
	if m.head == -1 && i > 0 {
		return nil, fmt.Errorf("full, but %d slots are free", i)
	}
	for i < slots {
		s, err := unslot(at(i))
		if err != nil {
			return nil, fmt.Errorf("slot %d: %v", i, err)
		}
		i++
		v := value{s.start, s.end, append([]byte(nil), s.payload...)}
		if s.kind == slotBegin {
			for s.kind != slotEnd {
				if i == slots {
					return nil, errors.New("value does not end")
				}
				s, err = unslot(at(i))
				if err != nil {
					return nil, fmt.Errorf("slot %d: %v", i, err)
				}
				if s.kind != slotContinue && s.kind != slotEnd || s.start != v.start || s.end != v.end {
					return nil, fmt.Errorf("slot %d does not go on with the value", i)
				}
				i++
				v.data = append(v.data, s.payload...)
			}
		} else if s.kind != slotComplete {
			return nil, fmt.Errorf("slot %d is of kind %d", i-1, s.kind)
		}
		out = append(out, v)
	}
	// readers skip files by the smallest end
	for _, v := range out {
		if v.end < m.smalle {
			return nil, fmt.Errorf("smallest end %d, but there is %v", m.smalle, v)
		}
	}
	return out, nil
}

// readOldDir reads all of the data files of a metric, newest first.
func readOldDir(dir string) (out []value, files int, err error) {
	names, err := ioutil.ReadDir(dir)
	if err != nil {
		return nil, 0, err
	}
	var nums []int
	for _, fi := range names {
		if fi.IsDir() || !strings.HasSuffix(fi.Name(), ".data") {
			continue
		}
		n, err := strconv.Atoi(strings.TrimSuffix(fi.Name(), ".data"))
		if err != nil || n < 1 {
			return nil, 0, fmt.Errorf("data file %q", fi.Name())
		}
		nums = append(nums, n)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(nums)))
	for i, n := range nums {
		if i > 0 && nums[i-1] != n+1 {
			return nil, 0, fmt.Errorf("data files %v", nums)
		}
		buf, err := ioutil.ReadFile(filepath.Join(dir, fmt.Sprintf("%d.data", n)))
		if err != nil {
			return nil, 0, err
		}
		vals, err := readOldFile(buf)
		if err != nil {
			return nil, 0, fmt.Errorf("%d.data: %v", n, err)
		}
		out = append(out, vals...)
	}
	return out, len(nums), nil
}

// formatName makes a name with everything that is escaped.
func formatName(r *hk.Rand) string {
	for {
		var b []byte
		for n := r.Range(1, 14); n > 0; n-- {
			b = append(b, r.PickS("a", "b", "c", "Z", "0", "_", "-", " ", ".", ".", ".", "/", "%", "%2e", "é", "\xff", "\\", "e", "..")...)
		}
		if len(b) < 60 {
			return string(b)
		}
	}
}

// overlapping returns if the directory of a metric would be one of another,
// or whether a component is mistaken for a data file.
func formatNames(r *hk.Rand, n int) (out []string) {
	seen := map[string]bool{}
	for len(out) < n {
		name := formatName(r)
		if len(out) > 0 && r.P(1, 4) {
			name = out[r.Intn(len(out))] + r.PickS(".", "..", ".x", "/", "%2e")
		}
		if !seen[name] {
			seen[name] = true
			out = append(out, name)
		}
	}
	return out
}

func c34(r *hk.Run) {
	r.Rule("stored: data files of other sizes and numbers, made by an independent implementation of the format, are listed, queried with bounds, and written on; written: what the database wrote is read by the independent implementation; record: encodings of records by an independent protobuf implementation are read, and the other way round; digest: t-digests encoded independently are loaded and the other way round")

	all := kinds("error", "order", "phantom", "content", "hole", "lost", "resurrect", "accept")

	r.Cases("stored", r.N(2000, 20000), 8, func(c *hk.C) {
		dir := c.R.TempDir()
		defer os.RemoveAll(dir)

		names := formatNames(c.Rand, c.Range(1, 5))
		stored := map[string][]value{} // oldest first
		last := map[string][2]int{}    // size of records and free slots of the newest file
		total := 0
		for _, name := range names {
			var vals []value
			num := c.Pick(1, 1, 1, 2, 9, 10, 99, 12345)
			end := int64(c.Pick(-1000000, -50, 0, 1, 1500000000))
			d := filepath.Join(dir, oldDir(name))
			os.MkdirAll(d, 0755)
			for nf := c.Range(1, 4); nf > 0; nf-- {
				size := c.Pick(90, 100, 128, 200, 256, 512, 1024, 4096)
				capa := c.Range(1, 9)
				var in []value
				for nv := c.Range(1, capa+1); nv > 0; nv-- {
					start := end
					end = start + int64(c.Range(1, 1000))
					if c.P(1, 10) {
						start -= int64(c.Intn(50))
					}
					in = append(in, value{start, end, c.Bytes(c.Pick(0, 1, c.Intn(size), c.Intn((size-header)*capa+1), (size-header)*c.Range(1, capa)))})
				}
				buf, n := oldFile(size, capa, in)
				if n == 0 {
					n = 1
					in[0].data = in[0].data[:min(len(in[0].data), size-header)]
					buf, _ = oldFile(size, capa, in[:1])
				}
				in = in[:n]
				end = in[n-1].end
				if err := ioutil.WriteFile(filepath.Join(d, fmt.Sprintf("%d.data", num)), buf, 0644); err != nil {
					panic("harness: " + err.Error())
				}
				m, _ := parseMeta(buf)
				last[name] = [2]int{size, m.head + 1}
				num++
				vals = append(vals, in...)
				c.Sig(name, size, capa, num, fmt.Sprint(in))
				c.Logf("stored %q in %s/%d.data: records of %d bytes, %d of them: %v", name, oldDir(name), num-1, size, capa, in)
				c.Count("files_stored", 1)
			}
			stored[name] = vals
			total += len(vals)
		}
		c.Count("values_stored", int64(total))
		c.NonTrivial()

		cf := conf{Size: c.Pick(100, 128, 300, 1024), Cap: c.Range(1, 8), Handles: c.Pick(-1, 1, 2, 64), Workers: c.Range(1, 2), Buffer: c.Pick(0, 1, 10)}
		c.Logf("open %+v", cf)
		n := start(dir, cf)
		defer func() {
			if n != nil {
				n.stop()
			}
		}()

		compare := func(when string) {
			for _, name := range names {
				vals := stored[name]
				got, err := n.read(name, maxTime)
				if err != nil || len(got) != len(vals) {
					c.Failf("content", "%s, %d of the %d values stored for %q in %s are read (error %v)", when, len(got), len(vals), name, oldDir(name), err)
					return
				}
				for i, v := range got {
					if w := vals[len(vals)-1-i]; !v.same(w) {
						c.Failf("content", "%s, %v is read instead of %v for %q", when, v, w, name)
						return
					}
				}
				c.Count("values_read", int64(len(got)))

				// a bound
				bound := vals[c.Intn(len(vals))].end + int64(c.Range(-1, 1))
				got, err = n.read(name, bound)
				want := 0
				for _, v := range vals {
					if v.end < bound {
						want++
					}
				}
				if err != nil || len(got) != want || want > 0 && !got[0].same(vals[want-1]) {
					c.Failf("content", "%s, before %d %d values are read instead of %d for %q (error %v)", when, bound, len(got), want, name, err)
					return
				}
				s, e, data, err := n.QueryLatest(nilctx, name, nil)
				if w := vals[len(vals)-1]; err != nil || !(value{s, e, data}).same(w) {
					c.Failf("content", "%s, the latest is %v instead of %v for %q (error %v)", when, value{s, e, data}, w, name, err)
					return
				}
			}
		}
		compare("before anything is written")

		if err := n.PopulateMetrics(nilctx); err != nil {
			c.Failf("names", "listing what is stored: %v", err)
		}
		list, err := n.list()
		sort.Strings(list)
		want := append([]string(nil), names...)
		sort.Strings(want)
		if err != nil || fmt.Sprintf("%q", list) != fmt.Sprintf("%q", want) {
			c.Failf("names", "the names of what is stored: %q (error %v) instead of %q", list, err, want)
		}
		c.Count("names_listed", int64(len(list)))

		// write on
		appended := int64(0)
		for i := c.Range(0, 12); i > 0 && !c.Failed(); i-- {
			name := names[c.Intn(len(names))]
			vals := stored[name]
			latest := vals[len(vals)-1].end
			v := value{start: latest, end: latest + int64(c.Range(1, 100)), data: c.Bytes(c.Pick(0, 1, c.Intn(cf.chunk()), c.Intn(cf.bytes()+1), cf.bytes()))}
			if c.P(1, 5) {
				// stored values are never overtaken
				v.end = latest - int64(c.Pick(0, 0, 1, 100))
				v.start = v.end - 1
				if a := n.put(name, v.start, v.end, v.data); a.ok {
					c.Failf("accept", "%v was accepted for %q, where %v is stored", v, name, vals[len(vals)-1])
				}
				continue
			}
			a := n.put(name, v.start, v.end, v.data)
			c.Logf("put %q %v: %v %v", name, v, a.ok, a.err)
			if !a.ok || a.err != nil {
				c.Failf("accept", "%v was not accepted for %q (%v, %v), where the latest stored is %v", v, name, a.ok, a.err, vals[len(vals)-1])
				return
			}
			stored[name] = append(vals, v)
			appended++
		}
		c.Count("values_appended", appended)
		if c.Failed() {
			return
		}
		compare("after writing on")
		if c.Failed() {
			return
		}
		n.stop()
		n = nil
		for _, name := range names {
			got, files, err := readOldDir(filepath.Join(dir, oldDir(name)))
			if err != nil {
				c.Failf("stored", "an earlier version can not read what is stored for %q: %v", name, err)
				return
			}
			vals := stored[name]
			if len(got) != len(vals) {
				c.Failf("stored", "an earlier version reads %d of the %d values stored for %q in %d files", len(got), len(vals), name, files)
				return
			}
			for i, v := range got {
				if w := vals[len(vals)-1-i]; !v.same(w) {
					c.Failf("stored", "an earlier version reads %v instead of %v for %q", v, w, name)
					return
				}
			}
			c.Count("files_decoded", int64(files))
		}
		n = start(dir, cf)
		compare("after starting again")
	})

	r.Cases("written", r.N(1200, 15000), 8, func(c *hk.C) {
		h := newHistory(c, all)
		names := formatNames(c.Rand, len(h.ms))
		for i, m := range h.ms {
			m.name = names[i]
		}
		h.open()
		for i := c.Range(5, 60); i > 0 && !c.Failed(); i-- {
			if c.P(1, 12) {
				h.close()
				if c.P(1, 2) {
					h.cf = randConf(c.Rand)
				}
				for _, m := range h.ms {
					m.epoch, m.maxnr, m.free = len(m.vals), 0, true
				}
				h.open()
			}
			h.put(h.ms[c.Intn(len(h.ms))])
		}
		read := map[string][]value{}
		for _, m := range h.ms {
			got, err := h.n.read(m.name, maxTime)
			if err != nil && len(m.vals) > 0 {
				c.Failf("error", "query of %q: %v", m.name, err)
			}
			read[m.name] = got
		}
		h.close()
		for _, m := range h.ms {
			if len(m.vals) == 0 {
				continue
			}
			got, files, err := readOldDir(filepath.Join(h.dir, oldDir(m.name)))
			if err != nil {
				c.Failf("written", "an earlier version can not read what was written to %q: %v", m.name, err)
				break
			}
			for len(got) > 0 && got[0].end == maxTime {
				got = got[1:]
			}
			if d := diffValues(read[m.name], got); d != "" {
				c.Failf("written", "an earlier version reads something else of %q: %s", m.name, d)
				break
			}
			for _, v := range got {
				if j, ok := m.find(v.end); !ok || !v.same(m.vals[j]) {
					c.Failf("written", "an earlier version reads %v of %q, which was not written", v, m.name)
					break
				}
			}
			c.Count("files_decoded", int64(files))
			c.Count("values_decoded", int64(len(got)))
			if len(got) > 0 {
				c.NonTrivial()
			}
		}
		os.RemoveAll(h.dir)
	})

	r.Cases("metadata", r.N(4000, 40000), 8, formatMeta)
	r.Cases("record", r.N(60000, 1000000), 8, formatRecord)
	r.Cases("digest", r.N(3000, 40000), 8, formatDigest)

	r.Require("values_read", 1000)
	r.Require("values_decoded", 1000)
	r.Require("values_appended", 500)
	r.Require("names_listed", 500)
	r.Require("unknown_fields", 500)
	r.Require("malformed", 1000)
	r.Require("centroids", 1000)
}

// formatMeta reads files whose metadata is more, or not, what it should be.
func formatMeta(c *hk.C) {
	dir := c.R.TempDir()
	defer os.RemoveAll(dir)
	size, capa := c.Pick(200, 256), c.Range(1, 4)
	vals := []value{{5, 10, c.Bytes(20)}, {10, 12, c.Bytes(30)}, {12, 20, nil}}
	buf, k := oldFile(size, capa, vals)
	m, _ := unslot(buf)
	fields, _ := parseFields(m.payload)

	var enc []byte
	good := c.P(1, 2)
	if good {
		// fields of a later version
		for i := 0; i <= len(fields); i++ {
			if c.P(1, 3) {
				enc = appendField(enc, field{num: c.Range(6, 40), wire: c.Pick(0, 1, 2, 5), val: c.U64(), data: c.Bytes(c.Intn(10))})
			}
			if i < len(fields) {
				enc = appendField(enc, fields[i])
			}
		}
	} else {
		if c.P(3, 4) {
			enc = append(enc, m.payload...)
		}
		switch c.Intn(3) {
		case 0:
			if c.P(1, 2) {
				enc = binary.AppendUvarint(enc, uint64(c.Range(6, 40))<<3|3)
			}
			enc = binary.AppendUvarint(enc, uint64(c.Range(6, 40))<<3|2)
			enc = binary.AppendUvarint(enc, uint64(c.Pick(-1, -40, 0, 0, 1000))+uint64(c.Pick(0, 1))*uint64(maxTime))
		case 1:
			enc = appendField(enc, field{num: c.Range(1, 2), val: uint64(c.Pick(0, -1, 1, 23, 24, 25, 100, 1<<31, 1<<31-1, 1<<20))})
		default:
			enc = append(enc, c.Bytes(c.Range(1, 20))...)
		}
	}
	if len(enc) > size-header {
		return
	}
	for i := range buf[:size] {
		buf[i] = 0
	}
	copy(buf, slot(slotComplete, 0, 0, enc))
	os.MkdirAll(filepath.Join(dir, "a"), 0755)
	if err := ioutil.WriteFile(filepath.Join(dir, "a/1.data"), buf, 0644); err != nil {
		panic("harness: " + err.Error())
	}
	c.Sig(good, fmt.Sprintf("%x", enc))
	c.Logf("metadata %x of %d bytes, %d records", enc, size, capa)
	c.NonTrivial()

	n := start(dir, conf{Size: 200, Cap: 2, Handles: 1, Workers: 1})
	defer n.stop()
	c.Guard("reading", func() {
		got, err := n.read("a", maxTime)
		if good && (err != nil || len(got) != k) {
			c.Failf("metadata", "%d of %d values are read of a file whose metadata has more than is known (error %v)", len(got), k, err)
		}
		for _, v := range got {
			ok := false
			for _, w := range vals {
				ok = ok || v.same(w)
			}
			if !ok {
				c.Failf("metadata", "%v is read, which is not stored", v)
			}
		}
	})
	c.Count("metadata_read", 1)
}

func randRecord(c *hk.C) data.Record {
	num := func() int64 {
		switch c.Intn(6) {
		case 0:
			return 0
		case 1:
			return -int64(c.Intn(1000))
		case 2:
			return []int64{minTime, maxTime, 127, 128, 1 << 32}[c.Intn(5)]
		default:
			return int64(c.U64() >> uint(c.Intn(64)))
		}
	}
	float := func() float64 {
		switch c.Intn(6) {
		case 0:
			return 0
		case 1:
			return []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, -1}[c.Intn(5)]
		default:
			return (c.Float() - 0.5) * math.Pow(10, float64(c.Range(-20, 20)))
		}
	}
	blob := func() []byte {
		switch c.Intn(5) {
		case 0:
			return nil
		case 1:
			return c.Bytes(c.Range(120, 400))
		default:
			return c.Bytes(c.Intn(40))
		}
	}
	return data.Record{
		StartTime: num(), EndTime: num(), Observations: num(),
		Distribution: blob(), Kind: c.PickS("", "tdigest", "x", strings.Repeat("k", 200), "é"),
		Min: float(), Max: float(), MinId: blob(), MaxId: blob(), Merged: num(),
	}
}

// recordFields are what the record is made of, in order.
func recordFields(rec data.Record) (out []field) {
	num := func(n int, v int64) {
		if v != 0 {
			out = append(out, field{num: n, val: uint64(v)})
		}
	}
	blob := func(n int, b []byte) {
		if len(b) > 0 {
			out = append(out, field{num: n, wire: 2, data: b})
		}
	}
	float := func(n int, f float64) {
		if f != 0 {
			out = append(out, field{num: n, wire: 1, val: math.Float64bits(f)})
		}
	}
	num(1, rec.StartTime)
	num(2, rec.EndTime)
	num(3, rec.Observations)
	blob(4, rec.Distribution)
	blob(5, []byte(rec.Kind))
	float(6, rec.Min)
	float(7, rec.Max)
	blob(8, rec.MinId)
	blob(9, rec.MaxId)
	num(10, rec.Merged)
	return out
}

func sameRecord(a, b data.Record) bool {
	return a.StartTime == b.StartTime && a.EndTime == b.EndTime && a.Observations == b.Observations &&
		bytes.Equal(a.Distribution, b.Distribution) && a.Kind == b.Kind &&
		a.Min == b.Min && a.Max == b.Max && bytes.Equal(a.MinId, b.MinId) && bytes.Equal(a.MaxId, b.MaxId) &&
		a.Merged == b.Merged
}

func formatRecord(c *hk.C) {
	rec := randRecord(c)
	c.Logf("%+v", rec)
	fields := recordFields(rec)
	c.Sig(fmt.Sprintf("%+v", rec))
	if len(fields) > 3 {
		c.NonTrivial()
	}

	// what is written
	var buf []byte
	c.Guard("encoding", func() {
		if n := rec.Size(); true {
			var err error
			buf, err = rec.Marshal()
			if err != nil {
				c.Failf("encode", "a record is not encoded: %v", err)
			} else if n != len(buf) {
				c.Failf("size", "a record of %d bytes says that it has %d", len(buf), n)
			}
		}
	})
	if c.Failed() {
		return
	}
	got, err := parseFields(buf)
	if err != nil {
		c.Failf("encode", "an earlier version can not read the encoding %x: %v", buf, err)
		return
	}
	byNum := map[int]field{}
	for _, f := range got {
		byNum[f.num] = f
	}
	zero := func(f field) bool { return f.val == 0 && len(f.data) == 0 }
	for _, f := range fields {
		g, ok := byNum[f.num]
		if !ok || g.wire != f.wire || g.val != f.val || !bytes.Equal(g.data, f.data) {
			c.Failf("encode", "an earlier version reads %+v for the field %+v", g, f)
			return
		}
		delete(byNum, f.num)
	}
	for _, g := range byNum {
		if g.num <= 10 && !zero(g) {
			c.Failf("encode", "an earlier version reads the field %+v that the record does not have", g)
			return
		}
	}

	// what is read, with fields in any order and ones that are unknown
	mixed := append([]field(nil), fields...)
	if c.P(1, 2) {
		for i, j := range c.Perm(len(mixed)) {
			mixed[i], mixed[j] = mixed[j], mixed[i]
		}
	}
	var enc []byte
	for i := 0; i <= len(mixed); i++ {
		if c.P(1, 8) {
			f := field{num: c.Range(11, 40), wire: c.Pick(0, 1, 2, 5), val: c.U64(), data: c.Bytes(c.Intn(200))}
			enc = appendField(enc, f)
			c.Count("unknown_fields", 1)
		}
		if i < len(mixed) {
			enc = appendField(enc, mixed[i])
		}
	}
	c.Guard("decoding", func() {
		var out data.Record
		if err := out.Unmarshal(enc); err != nil {
			c.Failf("decode", "the encoding %x is not read: %v", enc, err)
		} else if !sameRecord(out, rec) {
			c.Failf("decode", "%+v is read of the encoding %x", out, enc)
		}
	})
	c.Count("records_compared", 1)

	// what is malformed
	bad := append([]byte(nil), enc...)
	cut := false
	switch c.Intn(5) {
	case 0:
		if len(mixed) > 0 {
			// inside of the last field
			tail := appendField(nil, field{num: 4, wire: 2, data: c.Bytes(c.Range(1, 50))})
			bad = append(bad, tail[:c.Range(1, len(tail)-1)]...)
			cut = true
		}
	case 1:
		// a length that no input has
		bad = binary.AppendUvarint(bad, uint64(c.Pick(4, 5, 8, 9, 11, 12, 1000))<<3|2)
		l := []uint64{1 << 63, 1<<63 - 1, 1<<63 - 2, 1<<63 - 40, 1<<64 - 1, 1 << 62, 1 << 31, 1 << 32, 1000}[c.Intn(9)]
		bad = binary.AppendUvarint(bad, l)
		bad = append(bad, c.Bytes(c.Intn(30))...)
		cut = true
	case 4:
		// groups, that are skipped with everything in them
		for i := c.Pick(1, 2, 3, 1000); i > 0; i-- {
			bad = binary.AppendUvarint(bad, uint64(c.Range(11, 15))<<3|3)
		}
		for i := c.Range(0, 3); i > 0; i-- {
			bad = appendField(bad, field{num: c.Range(1, 20), wire: c.Pick(0, 1, 2, 5), val: c.U64(), data: c.Bytes(c.Intn(20))})
		}
		if c.P(1, 2) {
			bad = binary.AppendUvarint(bad, uint64(c.Range(1, 20))<<3|2)
			bad = binary.AppendUvarint(bad, uint64(maxTime-int64(c.Intn(60))))
			bad = append(bad, c.Bytes(c.Intn(30))...)
		}
		cut = true
	case 2:
		for i := c.Range(1, 4); i > 0 && len(bad) > 0; i-- {
			bad[c.Intn(len(bad))] = byte(c.U64())
		}
	default:
		bad = c.Bytes(c.Intn(60))
	}
	c.Logf("malformed %x", bad)
	c.Guard("decoding something malformed", func() {
		var out data.Record
		err := out.Unmarshal(bad)
		if cut && err == nil {
			c.Failf("malformed", "%x is read as %+v, but its last field is cut off", bad, out)
		}
	})
	c.Count("malformed", 1)
	hk.Progress()
}

// formatDigest compares t-digests with their encoding.
func formatDigest(c *hk.C) {
	ctx := context.Background()
	compression := []float64{1, 5, 10, 100, 1000}[c.Intn(5)]
	n := c.Pick(1, 2, 3, 5, 10, 40)
	means := make([]float32, n)
	for i := range means {
		means[i] = float32(c.Range(-1000, 1000))
	}
	sort.Slice(means, func(i, j int) bool { return means[i] < means[j] })

	enc := binary.BigEndian.AppendUint32(nil, 2)
	enc = binary.BigEndian.AppendUint64(enc, math.Float64bits(compression))
	enc = binary.BigEndian.AppendUint32(enc, uint32(n))
	var x float32
	for _, m := range means {
		enc = binary.BigEndian.AppendUint32(enc, math.Float32bits(m-x))
		x = m
	}
	var total int64
	for range means {
		k := uint64(c.Pick(1, 1, 2, 100, 127, 128, 100000))
		total += int64(k)
		enc = binary.AppendUvarint(enc, k)
	}
	c.Sig(fmt.Sprintf("%x", enc))
	c.Logf("means %v with compression %v: %x", means, compression, enc)
	if n > 1 {
		c.NonTrivial()
	}
	c.Count("centroids", int64(n))

	c.Guard("loading", func() {
		d, err := load.Load(ctx, data.Record{Kind: "tdigest", Distribution: enc})
		if err != nil {
			c.Failf("digest", "a t-digest is not loaded: %v", err)
			return
		}
		if d.Kind() != "tdigest" || d.Len() != total {
			c.Failf("digest", "a %q with %d observations is loaded instead of a t-digest with %d", d.Kind(), d.Len(), total)
		}
		lo, hi := float64(means[0]), float64(means[n-1])
		prev := math.Inf(-1)
		for i := 0; i <= 20; i++ {
			q := d.Query(float64(i) / 20)
			if !(q >= lo-0.01 && q <= hi+0.01) || q < prev-0.01 {
				c.Failf("digest", "the quantile %v is %v after %v, the values are in [%v, %v]", float64(i)/20, q, prev, lo, hi)
				return
			}
			prev = q
		}

		// and the encoding of it
		count, first, last, err := parseDigest(d.Marshal(nil), compression)
		if err != nil || count != total {
			c.Failf("digest", "an earlier version reads %d observations instead of %d: %v", count, total, err)
		} else if first < lo-0.5 || last > hi+0.5 {
			c.Failf("digest", "an earlier version reads values in [%v, %v] instead of [%v, %v]", first, last, lo, hi)
		}
		for i := c.Intn(50); i > 0; i-- {
			v := float64(c.Range(-2000, 2000))
			d.Observe(v)
			lo, hi = math.Min(lo, v), math.Max(hi, v)
			total++
		}
		count, first, last, err = parseDigest(d.Marshal(nil), compression)
		if err != nil || count != total {
			c.Failf("digest", "an earlier version reads %d observations instead of %d: %v", count, total, err)
		} else if first < lo-0.5 || last > hi+0.5 {
			c.Failf("digest", "an earlier version reads values in [%v, %v] instead of [%v, %v]", first, last, lo, hi)
		}
	})
	hk.Progress()
}

func parseDigest(b []byte, compression float64) (count int64, first, last float64, err error) {
	if len(b) < 16 || binary.BigEndian.Uint32(b) != 2 {
		return 0, 0, 0, errors.New("no t-digest of version 2")
	}
	if f := math.Float64frombits(binary.BigEndian.Uint64(b[4:])); f != compression {
		return 0, 0, 0, fmt.Errorf("compression %v instead of %v", f, compression)
	}
	n := int(binary.BigEndian.Uint32(b[12:]))
	b = b[16:]
	if n == 0 || len(b) < 5*n {
		return 0, 0, 0, fmt.Errorf("%d centroids in %d bytes", n, len(b))
	}
	x := 0.0
	for i := 0; i < n; i++ {
		x += float64(math.Float32frombits(binary.BigEndian.Uint32(b)))
		b = b[4:]
		if i == 0 {
			first = x
		}
	}
	for i := 0; i < n; i++ {
		v, k := binary.Uvarint(b)
		if k <= 0 {
			return 0, 0, 0, errors.New("count")
		}
		count += int64(v)
		b = b[k:]
	}
	if len(b) > 0 {
		return 0, 0, 0, fmt.Errorf("%d bytes too many", len(b))
	}
	return count, first, x, nil
}
