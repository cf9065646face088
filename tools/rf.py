import os
def ed(p, *prs):
    s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(p,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
D='database/files/'
# metric.Write: rotation in a helper, checks by a helper
ed(D+'metric.go',
('''		// we have to allocate a new file, so remove the first file and bump
		// the first number. since it may be in the cache, we need to evict
		// it from the cache if it is there. bump first once the file is
		// removed.
		for m.last-m.first >= m.opts.max && m.opts.max > 0 {
			first_path := m.filenameAt(m.first)
			m.opts.fch.evictFile(first_path)
			os.Remove(first_path)
			hook("removed", first_path)
			m.first++
		}
''','''		m.retire()
'''),
('''// Read returns all of the writes that are strictly before end.''','''// retire removes the oldest files until there is room for another one.
func (m *metric) retire() {
	if m.opts.max <= 0 {
		return
	}
	for excess := m.last - m.first - m.opts.max + 1; excess > 0; excess-- {
		m.removeFile(m.first)
		m.first++
	}
}

// removeFile removes the data file with the index.
func (m *metric) removeFile(index int) {
	path := m.filenameAt(index)
	m.opts.fch.evictFile(path)
	os.Remove(path)
	hook("removed", path)
}

// Read returns all of the writes that are strictly before end.'''),
('''			m.opts.fch.evictFile(path)
			os.Remove(path)
			hook("removed", path)
			m.last--
''','''			m.removeFile(m.last)
			m.last--
'''),
('''	if f.HasRecord(ctx, head) {
		last_end, ok := m.latestEnd(ctx, f, head)
		if ok && last_end >= end {
			return false, nil
		}
	}
''','''	if has := f.HasRecord(ctx, head); has {
		switch last_end, ok := m.latestEnd(ctx, f, head); {
		case !ok:
		case end <= last_end:
			return false, nil
		}
	}
'''),
('''				buf = append(buf[:0], rec.data...)

''','''				buf = buf[:0]
				buf = append(buf, rec.data...)

'''),
('''	for _, name := range names {
		if !strings.HasSuffix(name, ".data") {
			continue
		}

		val, err := strconv.ParseInt(name[:len(name)-5], 10, 0)
		if err != nil {
			continue
		}
		iv := int(val)
''','''	for _, name := range names {
		base := strings.TrimSuffix(name, ".data")
		if base == name {
			continue
		}
		iv, err := strconv.Atoi(base)
		if err != nil {
			continue
		}
'''),
)
ed(D+'db_write.go',
('''	if db.opts.Tuning.Drop {
		select {
		case queue <- value:
			handled = true
		case <-ctx.Done():
		default:
		}
	} else {
		select {
		case queue <- value:
			handled = true
		case <-ctx.Done():
		}
	}

	return nil
}
''','''	handled = db.send(ctx, queue, value)
	return nil
}

// send sends the value and returns if it did.
func (db *DB) send(ctx context.Context, queue chan<- queuedValue,
	value queuedValue) bool {

	if !db.opts.Tuning.Drop {
		select {
		case <-ctx.Done():
			return false
		case queue <- value:
			return true
		}
	}
	select {
	case <-ctx.Done():
	case queue <- value:
		return true
	default:
	}
	return false
}
'''),
('''	for {
		select {
		case <-done:
			return

		case value := <-queue:
			ok, err := db.write(ctx, num, value)
			db.bufs.Put(value.data)
			if value.done != nil {
				value.done(ok, err)
			}
		}
	}
}
''','''	for {
		var value queuedValue
		select {
		case <-done:
			return
		case value = <-queue:
		}
		ok, err := db.write(ctx, num, value)
		db.bufs.Put(value.data)
		if cb := value.done; cb != nil {
			cb(ok, err)
		}
	}
}
'''),
('''	if ok {
		should_store := false

		names, found := db.names.Load().(*sset.Set)
		if !found {
			should_store = true
		} else if found := names.Has(value.metric); !found {
			should_store = true
		}

		hook("written", value.metric)
		if should_store {
			db.names_w_mu[num].Lock()
			db.names_w[num].Add(value.metric)
			db.names_w_mu[num].Unlock()
		}
	}

	return ok, nil
''','''	if !ok {
		return false, nil
	}
	names, found := db.names.Load().(*sset.Set)
	known := found && names.Has(value.metric)
	hook("written", value.metric)
	if !known {
		db.addName(num, value.metric)
	}
	return true, nil
}

// addName adds the name to the set of the worker.
func (db *DB) addName(num int, name string) {
	mu := &db.names_w_mu[num]
	mu.Lock()
	defer mu.Unlock()
	db.names_w[num].Add(name)
'''),
)
ed(D+'lock_pool.go',
('''	l.mu.Lock()
	st, ok := l.locks[key]
	if !ok {
		st = new(lockPoolState)
		l.locks[key] = st
	}
	st.ref++
	l.mu.Unlock()

	st.mu.Lock()
''','''	l.state(key).mu.Lock()
}

func (l *lockPool) state(key string) *lockPoolState {
	l.mu.Lock()
	defer l.mu.Unlock()
	st := l.locks[key]
	if st == nil {
		st = &lockPoolState{}
		l.locks[key] = st
	}
	st.ref++
	return st
'''),
('''	if st.ref == 0 {
		delete(l.locks, key)
	}
	l.mu.Unlock()

	st.mu.Unlock()
''','''	if st.ref <= 0 {
		delete(l.locks, key)
	}
	st.mu.Unlock()
	l.mu.Unlock()
'''))
ed(D+'file_cache.go',
('''	tok, ev, ok := fch.ch.Put(f)
	fch.toks[path] = tok
	fch.mu.Unlock()

	if ok {
		// TODO(jeff): do we want to call sync or anything?
		ev.Close()
	}
''','''	tok, ev, evicted := fch.ch.Put(f)
	fch.toks[path] = tok
	fch.mu.Unlock()
	if !evicted {
		return
	}
	ev.Close()
'''),
('''	fch.mu.Lock()
	tok, ok := fch.toks[path]
	if ok {
		f, ok = fch.ch.Take(tok)
	}
	fch.mu.Unlock()

	if ok {
		return f, nil
	}

	if exists {
		return openFile(ctx, path)
	}
	return createFile(ctx, path, fch.opts.Size, fch.opts.Cap)
''','''	f, ok := fch.take(path, false)
	switch {
	case ok:
		return f, nil
	case exists:
		return openFile(ctx, path)
	default:
		return createFile(ctx, path, fch.opts.Size, fch.opts.Cap)
	}
'''),
('''	var f file

	fch.mu.Lock()
	tok, ok := fch.toks[path]
	if ok {
		delete(fch.toks, path)
		f, ok = fch.ch.Take(tok)
	}
	fch.mu.Unlock()

	if ok {
		f.Close()
	}
}
''','''	if f, ok := fch.take(path, true); ok {
		f.Close()
	}
}

// take takes the file out of the cache.
func (fch *fileCache) take(path string, forget bool) (f file, ok bool) {
	fch.mu.Lock()
	defer fch.mu.Unlock()
	tok, ok := fch.toks[path]
	if !ok {
		return f, false
	}
	if forget {
		delete(fch.toks, path)
	}
	return fch.ch.Take(tok)
}
'''))
ed(D+'db_read.go',
('''	// merge the worker sets in if there is something in them
	copied := false
	for i := range db.names_w {
		db.names_w_mu[i].Lock()

		if db.names_w[i].Len() > 0 {
			// lazily copy the names map to ensure it is readonly
			if !copied {
				names = names.Copy()
				copied = true
			}

			// merge the worker map in and clear it out
			names.Merge(db.names_w[i])
			db.names_w[i] = sset.New(0)
		}

		db.names_w_mu[i].Unlock()
	}

	// if we copied, we need to store the value now
	if copied {
		db.names.Store(names)
	}
''','''	names = db.collect(names)
'''),
('''// PopulateMetrics walks the''','''// collect moves the names of the workers to the set.
func (db *DB) collect(names *sset.Set) *sset.Set {
	var fresh []*sset.Set
	for i := range db.names_w {
		mu := &db.names_w_mu[i]
		mu.Lock()
		if set := db.names_w[i]; set.Len() > 0 {
			fresh = append(fresh, set)
			db.names_w[i] = sset.New(0)
		}
		mu.Unlock()
	}
	if len(fresh) == 0 {
		return names
	}
	out := names.Copy()
	for _, set := range fresh {
		out.Merge(set)
	}
	db.names.Store(out)
	return out
}

// PopulateMetrics walks the'''))
ed(D+'db.go',('''	close(queue)
	for val := range queue {
		db.bufs.Put(val.data)
		if val.done != nil {
			val.done(false, nil)
		}
	}
''','''	close(queue)
	for {
		val, ok := <-queue
		if !ok {
			break
		}
		db.bufs.Put(val.data)
		if val.done == nil {
			continue
		}
		val.done(false, nil)
	}
'''))
ed(D+'record.go',('''	complete := len(data) <= chunk
	kind := recordKind_begin

	for len(data) > chunk {
''','''	rest := len(data)
	complete := rest <= chunk
	kind := recordKind_begin

	for ; rest > chunk; rest -= chunk {
'''))
ed('dump/dump.go',('''			if written {
				atomic.AddInt64(&writes, 1)
			} else {
				atomic.AddInt64(&skips, 1)
			}
			if err != nil {
				atomic.AddInt64(&errors, 1)
			}

			d.bufs.Put(data)
			wg.Done()
''','''			defer wg.Done()
			d.bufs.Put(data)
			counter := &skips
			if written {
				counter = &writes
			}
			atomic.AddInt64(counter, 1)
			if err != nil {
				atomic.AddInt64(&errors, 1)
			}
'''),('''		err = d.opts.DB.Queue(ctx,
			metric,
			rec.StartTime,
			rec.EndTime,
			data,
			complete,
		)
		if err != nil {
			complete(false, err)
		}
''','''		if err := d.opts.DB.Queue(ctx, metric, rec.StartTime, rec.EndTime,
			data, complete); err != nil {
			complete(false, err)
		}
'''))
ed('listener/graphite/listener.go',('''	fields := bytes.Split(line, []byte{' '})
	if len(fields) != 3 {
		return errs.New("bad number of fields: %d", len(fields))
	}

	value, err := strconv.ParseFloat(string(fields[1]), 64)
	if err != nil {
		return errs.Wrap(err)
	}

	w.Add(ctx, string(fields[0]), value, nil)
	return nil
''','''	if n := bytes.Count(line, []byte{' '}); n != 2 {
		return errs.New("bad number of fields: %d", n+1)
	}
	first := bytes.IndexByte(line, ' ')
	second := bytes.LastIndexByte(line, ' ')
	name, number := line[:first], line[first+1:second]

	value, err := strconv.ParseFloat(string(number), 64)
	if err == nil {
		w.Add(ctx, string(name), value, nil)
		return nil
	}
	return errs.Wrap(err)
'''),('''	wg.Add(1)
	go func() {
		defer wg.Done()
		<-ctx.Done()
		conn.Close()
	}()
''','''	wg.Add(1)
	closer := func() {
		<-ctx.Done()
		conn.Close()
		wg.Done()
	}
	go closer()
'''))
ed('data/writer.go',('''	// iterate it
	var buf []byte
	p.m.Range(func(key, ai interface{}) (ok bool) {
		var rec Record
		buf, rec = ai.(*agg).Finish(buf, now)
		if rec.Observations == 0 {
			return true
		}
		return fn(ctx, key.(string), rec)
	})
}

''' if False else '''	if !atomic.CompareAndSwapPointer(&s.page, pi, new_pi) {
		return
	}

	// iterate it
	var buf []byte
	p.m.Range(func(key, ai interface{}) (ok bool) {
		var rec Record
		buf, rec = ai.(*agg).Finish(buf, now)
		if rec.Observations == 0 {
			return true
		}
		return fn(ctx, key.(string), rec)
	})
''','''	if !atomic.CompareAndSwapPointer(&s.page, pi, new_pi) {
		return
	}
	p.each(ctx, now, fn)
'''),('''	p := (*page)(pi)
	now := time.Now()

	// iterate it
	var buf []byte
	p.m.Range(func(key, ai interface{}) (ok bool) {
		var rec Record
		buf, rec = ai.(*agg).Finish(buf, now)
		if rec.Observations == 0 {
			return true
		}
		return fn(ctx, key.(string), rec)
	})
}
''','''	(*page)(pi).each(ctx, time.Now(), fn)
}

// each calls fn with the records of the page.
func (p *page) each(ctx context.Context, now time.Time,
	fn func(ctx context.Context, metric string, rec Record) bool) {

	p.m.Range(func(key, ai interface{}) (ok bool) {
		_, rec := ai.(*agg).Finish(nil, now)
		return rec.Observations == 0 || fn(ctx, key.(string), rec)
	})
}
'''))
ed('data/agg.go',('''	min, max, obs := a.rec.Min, a.rec.Max, a.rec.Observations
	a.rec.Observations++
''','''	rec := &a.rec
	obs, min, max := rec.Observations, rec.Min, rec.Max
	rec.Observations = obs + 1
'''),('''	if a.dist == nil {
		dist, err := a.params.New()
		if err == nil {
			a.dist = dist
		} else {
			return
		}
	}
	a.dist.Observe(val)
''','''	if a.dist == nil {
		dist, err := a.params.New()
		if err != nil {
			return
		}
		a.dist = dist
	}
	a.dist.Observe(val)
'''))
ed('merge/merger.go',('''	var to_remove []int
	for i := range m.records {
		if m.records[i].start > completed_px &&
			m.records[i].end > completed_px {

			to_remove = append(to_remove, i)
		}
	}

	// second, filter them out when iterating over the current set of records.
	// since we added them to to_remove in sorted order, we can just iterate
	// over the slice of to_remove.
	current := m.records
	m.records = m.records[:0]
	for i, mrec := range current {
		if len(to_remove) > 0 && to_remove[0] == i {
			debugPrint("removing", mrec.start, mrec.end)
			to_remove = to_remove[1:]
			continue
		}
		m.records = append(m.records, mrec)
	}
''','''	kept := m.records[:0]
	for _, mrec := range m.records {
		if mrec.start <= completed_px || mrec.end <= completed_px {
			kept = append(kept, mrec)
		}
	}
	m.records = kept
'''),('''		emit_recs = emit_recs[:0]
		for _, v := range to_emit {
			emit_recs = append(emit_recs, m.records[v])
		}
		err := m.emit(ctx, completed_px, to_emit_end_px, emit_recs)
		if err != nil {
			return err
		}
	}

	// prune''','''		if err := m.emit(ctx, completed_px, to_emit_end_px,
			m.pick(to_emit)); err != nil {
			return err
		}
	}

	// prune'''),('''func (m *Merger) emit(''','''func (m *Merger) pick(idx []int) (out []mergeRecord) {
	for _, v := range idx {
		out = append(out, m.records[v])
	}
	return out
}

func (m *Merger) emit('''))
ed('merge/merge.go',('''	// merge the max and min values
	out.Min, out.Max = opts.Records[0].Min, opts.Records[0].Max
	out.MinId, out.MaxId = opts.Records[0].MinId, opts.Records[0].MaxId
	for _, r := range opts.Records[1:] {
		if r.Min < out.Min {
			out.Min = r.Min
			out.MinId = r.MinId
		}
		if r.Max > out.Max {
			out.Max = r.Max
			out.MaxId = r.MaxId
		}
	}
''','''	// merge the max and min values, of equal ones the last.
	for i, r := range opts.Records {
		if i == 0 || r.Min <= out.Min {
			out.Min, out.MinId = r.Min, r.MinId
		}
		if i == 0 || r.Max >= out.Max {
			out.Max, out.MaxId = r.Max, r.MaxId
		}
	}
'''))
ed('api/server.go',('''	if s.opts.Username != "" {
		username, password, ok := req.BasicAuth()
		if !ok || !s.validAuth(ctx, username, password) {
			w.Header().Set("WWW-Authenticate", `Basic realm="rothko"`)
			return errUnauthorized.New("")
		}
	}

	if req.Method != "GET" {
		return errMethodNotAllowed.New("%s", req.Method)
	}

	switch req.URL.Path {
	case "/api/render":
		return s.serveRender(ctx, w, req)

	case "/api/query":
		return s.serveQuery(ctx, w, req)

	case "/api/nonce":
		return s.serveNonce(ctx, w, req)

	default:
		if s.static != nil {
			s.static.ServeHTTP(w, req)
			return nil
		}
		return errNotFound.New("path: %q", req.URL.Path)
	}
}
''','''	if !s.authorized(ctx, req) {
		w.Header().Set("WWW-Authenticate", `Basic realm="rothko"`)
		return errUnauthorized.New("")
	}
	if req.Method != "GET" {
		return errMethodNotAllowed.New("%s", req.Method)
	}
	handlers := map[string]func(context.Context, http.ResponseWriter,
		*http.Request) error{
		"/api/render": s.serveRender,
		"/api/query":  s.serveQuery,
		"/api/nonce":  s.serveNonce,
	}
	if handler, ok := handlers[req.URL.Path]; ok {
		return handler(ctx, w, req)
	}
	if s.static == nil {
		return errNotFound.New("path: %q", req.URL.Path)
	}
	s.static.ServeHTTP(w, req)
	return nil
}

// authorized returns if the request may be served.
func (s *Server) authorized(ctx context.Context, req *http.Request) bool {
	if s.opts.Username == "" {
		return true
	}
	username, password, ok := req.BasicAuth()
	return ok && s.validAuth(ctx, username, password)
}
'''))
ed('api/query/glob.go',('''		case '?':
			px++
			nx++
			continue

		case '*':
			next_px = px
			next_nx = nx + 1
			px++
			continue
		}
''','''		case '*':
			next_px, next_nx = px, nx+1
			px = px + 1
			continue

		case '?':
			px, nx = px+1, nx+1
			continue
		}
'''))
ed('internal/junk/launcher.go',('''	for range tasks {
		if err := <-errch; err != nil {
			return err
		}
		cancel() // if any task returns, cancel everything.
	}
	return nil
''','''	var first error
	for range tasks {
		err := <-errch
		cancel() // if any task returns, cancel everything.
		if err != nil && first == nil {
			first = err
		}
	}
	return first
'''))
ed('registry/registry.go',('''	maker, ok := r.databases[name]
	r.mu.Unlock()

	if !ok {
		return nil, errs.New("no registration for: %q", name)
	}

	return maker.New(ctx, config)
''','''	maker, ok := r.databases[name]
	r.mu.Unlock()
	if ok {
		return maker.New(ctx, config)
	}
	return nil, errs.New("no registration for: %q", name)
'''))
