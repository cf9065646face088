# third set of refactorings: whole functions written anew. cwd is a clone.
import os
def ed(p, *prs):
    s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(p,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
def fn(p, head, new):
    """replaces the function that starts with head"""
    s=open(p).read()
    assert s.count(head)==1,(p,s.count(head),head)
    i=s.index(head); j=s.index('\n}\n',i)+3
    open(p,'w').write(s[:i]+new.strip('\n')+'\n'+s[j:])
D='database/files/'

fn(D+'file_ops.go','func getHeadPointer(','''
func getHeadPointer(ctx context.Context, f file) (n int, err error) {
	m, err := f.Metadata(ctx)
	if err != nil {
		return 0, err
	}

	n = m.Head
	if n < 0 {
		return n, nil
	}
	if last := f.Capacity() - 1; n > last {
		n = last
	}

	// there are values the metadata does not know about
	if f.HasRecord(ctx, n) {
		for n >= 0 && f.HasRecord(ctx, n) {
			n--
		}
		if n < 0 {
			n = -1
		}
		return n, nil
	}

	// the first slot that is used, if any
	for next := n + 1; next < f.Capacity(); next++ {
		if f.HasRecord(ctx, next) {
			break
		}
		n = next
	}
	return n, nil
}
''')
fn(D+'record.go','func iterateRecords(','''
func iterateRecords(start, end int64, data []byte, size int,
	fn func(rec record) error) error {

	chunk := size - recordHeaderSize
	if chunk <= 0 || chunk > 1<<16-1 {
		return Error.New("invalid size value")
	}

	n := numRecords(len(data), size)
	for i := 0; i < n; i++ {
		part := data[i*chunk:]
		if len(part) > chunk {
			part = part[:chunk]
		}
		rec := record{
			version: recordVersion,
			kind:    recordKind_continue,
			start:   start,
			end:     end,
			size:    uint16(len(part)),
			data:    part,
		}
		switch {
		case n == 1:
			rec.kind = recordKind_complete
		case i == 0:
			rec.kind = recordKind_begin
		case i == n-1:
			rec.kind = recordKind_end
		}
		if err := fn(rec); err != nil {
			return err
		}
	}
	return nil
}
''')
fn(D+'record.go','func parse(','''
func parse(buf []byte) (out record, err error) {
	if len(buf) < recordHeaderSize {
		return record{}, Error.New("record buf not big enough for header")
	}
	head, body := buf[:recordHeaderSize], buf[recordHeaderSize:]

	if version := int8(head[0]); version != recordVersion {
		return record{version: version}, Error.New(
			"unknown record header version: %d", version)
	}
	out = record{
		version: int8(head[0]),
		kind:    recordKind(head[1]),
		start:   int64(binary.BigEndian.Uint64(head[2:])),
		end:     int64(binary.BigEndian.Uint64(head[10:])),
		size:    binary.BigEndian.Uint16(head[18:]),
	}
	if int(out.size) > len(body) {
		return out, Error.New("record buf not big enough for data")
	}
	out.data = body[:out.size]

	sum := crc32.Update(crc32.Checksum(head[:20], castTable), castTable, out.data)
	if disk := binary.BigEndian.Uint32(head[20:]); sum != disk {
		return out, Error.New("crc mismatch: %x != disk %x", sum, disk)
	}
	return out, nil
}
''')
fn(D+'cache.go','func (c *cache) Take(','''
func (c *cache) Take(tok cacheToken) (f file, ok bool) {
	entry, ok := c.handles[tok]
	if !ok {
		return file{}, false
	}
	delete(c.handles, tok)

	end := len(c.order) - 1
	if moved := c.order[end]; moved != tok {
		e := c.handles[moved]
		e.loc = entry.loc
		c.handles[moved] = e
		c.order[entry.loc] = moved
	}
	c.order = c.order[:end]
	return entry.f, true
}
''')
fn(D+'metric.go','func (m *metric) acquireLast(','''
func (m *metric) acquireLast(ctx context.Context) (f file, head int,
	err error) {

	for {
		if m.last < m.first {
			return file{}, 0, Error.New("unable to acquire last file")
		}
		path := m.filenameAt(m.last)
		f, head, err = m.openAt(ctx, path)
		if err != nil {
			return file{}, 0, err
		}
		empty := head+1 == f.Capacity()
		if !empty || m.first == m.last {
			return f, head, nil
		}

		// it is empty, and not the only one
		fch := m.opts.fch
		fch.releaseFile(path, f)
		fch.evictFile(path)
		os.Remove(path)
		hook("removed", path)
		m.last--
	}
}

// openAt acquires the file and finds the head of it.
func (m *metric) openAt(ctx context.Context, path string) (f file, head int,
	err error) {

	f, err = m.opts.fch.acquireFile(ctx, path, true)
	if err != nil {
		return file{}, 0, err
	}
	if head, err = getHeadPointer(ctx, f); err != nil {
		m.opts.fch.releaseFile(path, f)
		return file{}, 0, err
	}
	return f, head, nil
}
''')
s=open(D+'metric.go').read()
i=s.index('	for num := m.last; num >= m.first; num-- {\n		ok, err := func() (ok bool, err error) {')
j=s.index('\n}\n',i)+3
s=s[:i]+'''	for num := m.last; num >= m.first; num-- {
		var ok bool
		var err error
		buf, ok, err = m.readFile(ctx, num, end, buf, cb)
		if err != nil || !ok {
			return err
		}
	}

	return nil
}

// readFile runs the callback with what the file has, and returns if the ones
// before it are wanted as well.
func (m *metric) readFile(ctx context.Context, num int, end int64, buf []byte,
	cb func(ctx context.Context, start, end int64, data []byte) (
		bool, error)) (_ []byte, more bool, err error) {

	path := m.filenameAt(num)
	f, err := m.opts.fch.acquireFile(ctx, path, true)
	if err != nil {
		return buf, false, err
	}
	defer m.opts.fch.releaseFile(path, f)
	hook("reading", path)

	meta, err := f.Metadata(ctx)
	if err != nil {
		return buf, false, err
	}
	used := meta.Head+1 < f.Capacity()
	if used && meta.SmallestEnd >= end {
		return buf, true, nil
	}
	head, err := getHeadPointer(ctx, f)
	if err != nil {
		return buf, false, err
	}

	bad := func(what string, v interface{}) {
		external.Errorw("invalid record", what, v)
	}
	next := func() (record, bool) {
		head++
		rec, err := f.Record(ctx, head)
		if err != nil {
			bad("err", err)
		}
		return rec, err == nil
	}

	for head+1 < f.Capacity() {
		rec, ok := next()
		if !ok || rec.end >= end {
			continue
		}

		buf = append(buf[:0], rec.data...)
		switch rec.kind {
		case recordKind_complete:
		case recordKind_begin:
			for {
				if rec, ok = next(); !ok {
					break
				}
				buf = append(buf, rec.data...)
				if rec.kind != recordKind_continue {
					break
				}
			}
			if !ok {
				continue
			}
			if rec.kind != recordKind_end {
				bad("kind", rec.kind)
				continue
			}
		default:
			bad("kind", rec.kind)
			continue
		}

		ok, err = cb(ctx, rec.start, rec.end, buf)
		if err != nil || !ok {
			return buf, false, err
		}
		if err := ctx.Err(); err != nil {
			return buf, false, err
		}
	}
	return buf, true, nil
}
'''+s[j:]
open(D+'metric.go','w').write(s)
ed(D+'db.go',('''	// queue up populating the metric names
	launcher.Queue(func(ctx context.Context) error {
		external.Infow("caching metric names")

		n := time.Now()
		err := db.PopulateMetrics(ctx)

		external.Infow("cached metric names",
			"duration", time.Since(n),
		)
		if err != nil {
			external.Errorw("caching metric names",
				"error", err.Error(),
			)
		}

		<-ctx.Done()
		return nil
	})

	// launch and wait for them
	err := launcher.Run(ctx)
''','''	// populate the metric names while they run
	populated := make(chan struct{})
	go func() {
		defer close(populated)
		db.populate(ctx)
	}()

	// launch and wait for them
	err := launcher.Run(ctx)
	<-populated
'''),('''// Run will read values from''','''// populate finds the names in the directory.
func (db *DB) populate(ctx context.Context) {
	external.Infow("caching metric names")

	n := time.Now()
	if err := db.PopulateMetrics(ctx); err != nil {
		external.Errorw("caching metric names",
			"error", err.Error(),
		)
	}
	external.Infow("cached metric names",
		"duration", time.Since(n),
	)
}

// Run will read values from'''))
s=open(D+'lock_pool.go').read()
s=s[:s.index('// TODO(jeff)')]+'''// lockPool has a lock for each key that is in use: the channel is closed by its
// holder.
type lockPool struct {
	mu    sync.Mutex
	cond  *sync.Cond
	locks map[string]bool
}

func newLockPool() *lockPool {
	l := &lockPool{locks: make(map[string]bool)}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *lockPool) Lock(key string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for l.locks[key] {
		l.cond.Wait()
	}
	l.locks[key] = true
}

func (l *lockPool) Unlock(key string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.locks[key] {
		panic("unlock with no state")
	}
	delete(l.locks, key)
	l.cond.Broadcast()
}
'''
open(D+'lock_pool.go','w').write(s)
fn(D+'convert.go','func metricToDir(','''
func metricToDir(buf []byte, metric string) []byte {
	// leading and trailing dots, and all but the first of a group, are escaped
	first, last := 0, len(metric)
	for first < last && metric[first] == '.' {
		first++
	}
	for last > first && metric[last-1] == '.' {
		last--
	}
	dots := func(n int) {
		for ; n > 0; n-- {
			buf = append(buf, "%2e"...)
		}
	}

	dots(first)
	if first == len(metric) {
		return buf
	}
	if first > 0 {
		buf = append(buf, '/')
	}
	for i := first; i < last; i++ {
		switch ch := metric[i]; ch {
		case '.':
			if metric[i-1] == '.' {
				dots(1)
				if metric[i+1] != '.' {
					//
				}
			} else {
				buf = append(buf, '/')
			}
		case '/':
			buf = append(buf, "%2f"...)
		case '%':
			buf = append(buf, "%25"...)
		default:
			buf = append(buf, ch)
		}
	}
	if last < len(metric) {
		buf = append(buf, '/')
		dots(len(metric) - last)
	}
	return buf
}
''')
fn('dump/dump.go','func (d *Dumper) Dump(','''
func (d *Dumper) Dump(ctx context.Context, w *data.Writer) {
	j := &job{d: d}
	now := time.Now()

	w.Capture(ctx, func(ctx context.Context, metric string,
		rec data.Record) bool {

		if ctx.Err() != nil {
			return false
		}
		j.queue(ctx, metric, rec)
		return true
	})
	j.wg.Wait()

	duration := time.Since(now)
	external.Observe("metric_dump_duration", duration.Seconds())
	external.Observe("metric_writes", float64(j.writes))
	external.Observe("metric_skips", float64(j.skips))
	external.Observe("metric_errors", float64(j.errors))
	external.Infow("dump finished",
		"duration", duration,
		"writes", j.writes,
		"skips", j.skips,
		"errors", j.errors,
	)
}

// job is a dump in progress.
type job struct {
	d  *Dumper
	wg sync.WaitGroup

	mu                    sync.Mutex
	writes, skips, errors int64
}

// queue hands a record to the database.
func (j *job) queue(ctx context.Context, metric string, rec data.Record) {
	buf := j.d.bufs.Get().([]byte)
	size := rec.Size()
	if cap(buf) < size {
		buf = make([]byte, size)
	}
	buf = buf[:size]
	if _, err := rec.MarshalTo(buf); err != nil {
		external.Errorw("record marshal problem",
			"err", err.Error(),
		)
		return
	}

	j.wg.Add(1)
	done := func(written bool, err error) {
		j.answered(metric, written, err)
		j.d.bufs.Put(buf)
		j.wg.Done()
	}
	err := j.d.opts.DB.Queue(ctx, metric, rec.StartTime, rec.EndTime, buf, done)
	if err != nil {
		done(false, err)
	}
}

// answered counts the answer of the database.
func (j *job) answered(metric string, written bool, err error) {
	j.mu.Lock()
	if written {
		j.writes++
	} else {
		j.skips++
	}
	if err != nil {
		j.errors++
	}
	j.mu.Unlock()

	if written && err == nil {
		return
	}
	external.Errorw("metric write problem",
		"written", written,
		"err", safeError(err),
		"metric", metric,
	)
}
''')
ed('dump/dump.go',('	"sync/atomic"\n',''))
# listener: connections are kept in a set and closed by one goroutine
fn('listener/graphite/listener.go','func handleListener(','''
func handleListener(ctx context.Context, w *data.Writer, lis net.Listener) (
	err error) {

	var wg sync.WaitGroup
	defer wg.Wait()
	conns := &connSet{conns: make(map[net.Conn]bool)}
	defer conns.closeAll()

	stop := make(chan struct{})
	defer close(stop)
	go func() {
		select {
		case <-ctx.Done():
			conns.closeAll()
		case <-stop:
		}
	}()

	for {
		conn, err := lis.Accept()
		if err != nil {
			ne, ok := err.(net.Error)
			if !ok || !ne.Temporary() {
				return err
			}
			external.Errorw("graphite accept error",
				"err", err.Error(),
			)
			time.Sleep(10 * time.Millisecond)
			continue
		}
		if !conns.add(conn) {
			conn.Close()
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer conns.remove(conn)
			if err := handleConn(ctx, w, conn); err != nil {
				external.Errorw("graphite connection error",
					"err", err.Error(),
				)
			}
		}()
	}
}

// connSet is a set of open connections.
type connSet struct {
	mu     sync.Mutex
	closed bool
	conns  map[net.Conn]bool
}

func (s *connSet) add(conn net.Conn) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.closed {
		s.conns[conn] = true
	}
	return !s.closed
}

func (s *connSet) remove(conn net.Conn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	conn.Close()
	delete(s.conns, conn)
}

func (s *connSet) closeAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closed = true
	for conn := range s.conns {
		conn.Close()
	}
}
''')
fn('listener/graphite/listener.go','func handleConn(','''
func handleConn(ctx context.Context, w *data.Writer, conn net.Conn) (
	err error) {

	peer := conn.RemoteAddr().String()
	skipping := false
	reader := bufio.NewReaderSize(conn, maxLine)
	for {
		line, long, err := reader.ReadLine()
		switch {
		case err == io.EOF:
			return nil
		case err != nil:
			return errs.Wrap(err)
		case skipping:
			skipping = long
		case long:
			skipping = true
			external.Errorw("invalid graphite line",
				"peer", peer,
				"err", "line too long",
			)
		default:
			if err := handleLine(ctx, w, line); err != nil {
				external.Errorw("invalid graphite line",
					"line", string(line),
					"peer", peer,
					"err", err.Error(),
				)
			}
		}
	}
}
''')
# writer: a map under a lock instead of a sync.Map, and one walk
ed('data/writer.go',('''	m   sync.Map // map[string]*agg
''','''	mu  sync.RWMutex
	m   map[string]*agg
'''),('''		now: now,
	}''','''		now: now,
		m:   make(map[string]*agg),
	}'''),('''	ai, ok := p.m.Load(metric)
	if !ok {
		// we use LoadOrStore here to avoid a mutex at the cost of wasted
		// allocations for losers during contention.
		ai, _ = p.m.LoadOrStore(metric, newAgg(s.params, p.now))
	}
	a := ai.(*agg)

	a.Observe(value, id)
''','''	p.agg(metric, s.params).Observe(value, id)
'''),('''	new_pi := unsafe.Pointer(newPage(now))
	if !atomic.CompareAndSwapPointer(&s.page, pi, new_pi) {
		return
	}

	// iterate it
	var buf []byte
	p.m.Range(func(key, ai interface{}) (ok bool) {
		var rec Record
		buf, rec = ai.(*agg).Finish(buf, now)
		if rec.Observations == 0 {
			return true
		}
		return fn(ctx, key.(string), rec)
	})
''','''	new_pi := unsafe.Pointer(newPage(now))
	if !atomic.CompareAndSwapPointer(&s.page, pi, new_pi) {
		return
	}

	p.walk(ctx, now, fn)
'''),('''	// iterate it
	var buf []byte
	p.m.Range(func(key, ai interface{}) (ok bool) {
		var rec Record
		buf, rec = ai.(*agg).Finish(buf, now)
		if rec.Observations == 0 {
			return true
		}
		return fn(ctx, key.(string), rec)
	})
}
''','''	p.walk(ctx, now, fn)
}

// agg returns the agg of the metric.
func (p *page) agg(metric string, params dist.Params) *agg {
	p.mu.RLock()
	a, ok := p.m[metric]
	p.mu.RUnlock()
	if ok {
		return a
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if a, ok := p.m[metric]; ok {
		return a
	}
	a = newAgg(params, p.now)
	p.m[metric] = a
	return a
}

// walk calls the function with the records of the page.
func (p *page) walk(ctx context.Context, now time.Time,
	fn func(ctx context.Context, metric string, rec Record) bool) {

	type item struct {
		metric string
		a      *agg
	}
	p.mu.RLock()
	items := make([]item, 0, len(p.m))
	for metric, a := range p.m {
		items = append(items, item{metric, a})
	}
	p.mu.RUnlock()

	var buf []byte
	for _, it := range items {
		var rec Record
		buf, rec = it.a.Finish(buf, now)
		if rec.Observations > 0 && !fn(ctx, it.metric, rec) {
			return
		}
	}
}
'''))
# merger: spans of equal candidates
s=open('merge/merger.go').read()
i=s.index('	// some variables for our state\n'); j=s.index('	// yay we\'ve completed up to the pixel now.')
s=s[:i]+'''	// emit spans of pixels that have the same records
	for px := m.completed_px - 1; px >= completed_px; {
		recs, first := m.span(px, completed_px)
		if len(recs) > 0 {
			if err := m.emit(ctx, first, px, recs); err != nil {
				return err
			}
		}
		px = first - 1
	}

	// drop the records that no pixel before the completed one needs
	kept := make([]mergeRecord, 0, len(m.records))
	for _, mrec := range m.records {
		if mrec.start <= completed_px || mrec.end <= completed_px {
			kept = append(kept, mrec)
		}
	}
	m.records = kept

'''+s[j:]
s=s.replace('''// intsEq returns''','''// span returns the records at the pixel, and the first pixel, but not before
// least, from which on they are the same.
func (m *Merger) span(px, least int64) (recs []mergeRecord, first int64) {
	at := func(px int64) []int {
		var out []int
		for i, mrec := range m.records {
			if mrec.start <= px && px <= mrec.end {
				out = append(out, i)
			}
		}
		return out
	}
	here := at(px)
	for _, i := range here {
		recs = append(recs, m.records[i])
	}
	first = px
	for first > least && intsEq(at(first-1), here) {
		first--
	}
	return recs, first
}

// intsEq returns''')
open('merge/merger.go','w').write(s)
# the api writes json and images through buffers
ed('api/server.go',('''		type D = map[string]interface{}
		return errs.Wrap(json.NewEncoder(w).Encode(D{
			"metric":   metric,
			"columns":  cols,
			"earliest": earliest,
			"now":      now,
			"duration": dur.Nanoseconds(),
			"width":    width,
			"height":   height,
			"padding":  padding,
		}))
''','''		return writeJSON(w, renderResponse{
			Columns:  cols,
			Duration: dur.Nanoseconds(),
			Earliest: earliest,
			Height:   height,
			Metric:   metric,
			Now:      now,
			Padding:  padding,
			Width:    width,
		})
'''),('''	return errs.Wrap(png.Encode(w, out.AsImage()))
}
''','''	var body bytes.Buffer
	if err := png.Encode(&body, out.AsImage()); err != nil {
		return errs.Wrap(err)
	}
	_, err = body.WriteTo(w)
	return errs.Wrap(err)
}

// renderResponse is the answer to a render request as json.
type renderResponse struct {
	Columns  []draw.Column `json:"columns"`
	Duration int64         `json:"duration"`
	Earliest []byte        `json:"earliest"`
	Height   int           `json:"height"`
	Metric   string        `json:"metric"`
	Now      int64         `json:"now"`
	Padding  int           `json:"padding"`
	Width    int           `json:"width"`
}

// writeJSON answers with the value.
func writeJSON(w http.ResponseWriter, v interface{}) error {
	data, err := json.Marshal(v)
	if err != nil {
		return errs.Wrap(err)
	}
	_, err = w.Write(append(data, '\\n'))
	return errs.Wrap(err)
}
'''),('''	return errs.Wrap(json.NewEncoder(w).Encode(search.Matched()))
''','''	return writeJSON(w, search.Matched())
'''),('''import (
	"context"
''','''import (
	"bytes"
	"context"
'''),('''	"github.com/vivint/rothko/draw/colors"
''','''	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/colors"
'''))
fn('api/query/glob.go','func glob(','''
func glob(pattern, name string) bool {
	if pattern == "" {
		return true // the rest does not matter
	}
	rest := pattern[1:]
	if pattern[0] == '*' {
		for i := 0; i <= len(name); i++ {
			if glob(rest, name[i:]) {
				return true
			}
		}
		return false
	}
	if name == "" {
		return false
	}
	n := name[0]
	if n >= 'A' && n <= 'Z' {
		n |= 0x20
	}
	return (pattern[0] == '?' || pattern[0] == n) && glob(rest, name[1:])
}
''') if os.environ.get('GLOB') else None
fn('dist/tdigest/wrapper.go','func (w *Wrapper) CDF(','''
func (w *Wrapper) CDF(x float64) float64 {
	switch {
	case x <= w.quan(0):
		return 0
	case x >= w.quan(1):
		return 1
	}

	// steps of 64ths
	lo, hi := 0, 64
	for hi-lo > 1 {
		mid := (lo + hi) / 2
		if w.quan(float64(mid)/64) <= x {
			lo = mid
		} else {
			hi = mid
		}
	}
	return float64(lo+hi) / 128
}
''')
fn('internal/junk/launcher.go','func Launch(','''
func Launch(ctx context.Context, tasks ...func(context.Context) error) error {
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()

	var (
		wg    sync.WaitGroup
		mu    sync.Mutex
		first error
	)
	for _, fn := range tasks {
		fn := fn
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := fn(ctx)
			mu.Lock()
			if first == nil {
				first = err
			}
			mu.Unlock()
			cancel() // if any task returns, cancel everything.
		}()
	}
	wg.Wait()
	return first
}
''')
fn('internal/junk/signal.go','func WithSignal(','''
func WithSignal(ctx context.Context, sigs ...os.Signal) (
	context.Context, func()) {

	ctx, cancel := context.WithCancel(ctx)
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, sigs...)

	go func() {
		defer cancel()
		defer signal.Stop(ch)

		select {
		case sig := <-ch:
			external.Infow("signal received",
				"signal", sig.String(),
			)
		case <-ctx.Done():
		}
	}()

	return ctx, cancel
}
''')
# the registry locks for reading, and shares the lookup
ed('registry/registry.go',('	mu sync.Mutex\n','	mu sync.RWMutex\n'))
s=open('registry/registry.go').read()
for k in ('listeners','databases','distributions'):
    s=s.replace(f'''	r.mu.Lock()
	maker, ok := r.{k}[name]
	r.mu.Unlock()

	if !ok {{
		return nil, errs.New("no registration for: %q", name)
	}}

	return maker.New(ctx, config)
''',f'''	r.mu.RLock()
	maker, ok := r.{k}[name]
	r.mu.RUnlock()

	if ok {{
		return maker.New(ctx, config)
	}}
	return nil, missing(name)
''')
s+='''
// missing is the error for a name without a registration.
func missing(name string) error {
	return errs.New("no registration for: %q", name)
}
'''
open('registry/registry.go','w').write(s)
os.system('gofmt -l . | grep -v ui/')
