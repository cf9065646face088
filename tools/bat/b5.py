D='database/files/'
M=D+'metric.go'; F=D+'file.go'; W=D+'db_write.go'; R=D+'db_read.go'; C=D+'cache.go'; FC=D+'file_cache.go'; CV=D+'convert.go'; L=D+'lock_pool.go'; DB=D+'db.go'; RC=D+'record.go'
S='api/server.go'; G='listener/graphite/listener.go'; LA='internal/junk/launcher.go'; SG='internal/junk/signal.go'
B=[
('rec-int16','C03 C01',[(RC,"""func numRecords(len, size int) int {
	chunk := size - recordHeaderSize
	if chunk <= 0 || int(uint16(chunk)) != chunk {""","""func numRecords(len, size int) int {
	chunk := size - recordHeaderSize
	if chunk <= 0 || int(int16(chunk)) != chunk {""")]),
('rec-size15','C01 C03',[(RC,"	data_end := recordHeaderSize + int(out.size)\n","	data_end := recordHeaderSize + int(out.size&0x7fff)\n")]),
('names-lex','C01 C04',[(M,"		if iv > last {\n			last = iv\n		}","		if name > lastName(last) {\n			last = iv\n		}"),(M,"// filenameAt returns the","func lastName(n int) string {\n	if n == 0 {\n		return \"\"\n	}\n	return strconv.Itoa(n) + \".data\"\n}\n\n// filenameAt returns the")]),
('cb-in-lock','C05 C06',[(W,"	// lock the metric\n	db.locks.Lock(value.metric)\n	defer db.locks.Unlock(value.metric)\n",""),(W,"			ok, err := db.write(ctx, num, value)\n			db.bufs.Put(value.data)\n			if value.done != nil {\n				value.done(ok, err)\n			}\n","			db.locks.Lock(value.metric)\n			ok, err := db.write(ctx, num, value)\n			db.bufs.Put(value.data)\n			if value.done != nil {\n				value.done(ok, err)\n			}\n			db.locks.Unlock(value.metric)\n")]),
('list-hold','C09 C06',[(R,"	db.names_mu.Unlock()\n\n	// yay do callbacks\n","	defer db.names_mu.Unlock()\n\n	// yay do callbacks\n")]),
('lock-stripe','C06',[(L,"func (l *lockPool) Lock(key string) {\n","func stripe(key string) string {\n	h := byte(0)\n	for i := 0; i < len(key); i++ {\n		h = h*31 + key[i]\n	}\n	return string([]byte{h & 15})\n}\n\nfunc (l *lockPool) Lock(key string) {\n	key = stripe(key)\n"),(L,"func (l *lockPool) Unlock(key string) {\n","func (l *lockPool) Unlock(key string) {\n	key = stripe(key)\n")]),
('munmap-short','C11',[(F,"		return system.Munmap(f.data, f.len)","		return system.Munmap(f.data, f.cap*f.size)")]),
('agg-shards','C15',[('data/writer.go',"	p := (*page)(pi)\n	now := time.Now()\n\n	// swap","	p := (*page)(pi)\n	now := time.Now().Truncate(time.Microsecond)\n	if now.Before(p.now) {\n		now = p.now\n	}\n\n	// swap")]),
('dump-sem','C16 C18',[('dump/dump.go',"		wg.Add(1)\n","		wg.Add(1)\n		sem <- struct{}{}\n"),('dump/dump.go',"			wg.Done()\n","			<-sem\n			wg.Done()\n"),('dump/dump.go',"	writes := int64(0)\n","	writes := int64(0)\n	sem := make(chan struct{}, 64)\n")]),
('dump-sem1k','C16 C18',[('dump/dump.go',"		wg.Add(1)\n","		wg.Add(1)\n		sem <- struct{}{}\n"),('dump/dump.go',"			wg.Done()\n","			<-sem\n			wg.Done()\n"),('dump/dump.go',"	writes := int64(0)\n","	writes := int64(0)\n	sem := make(chan struct{}, 1024)\n")]),
('dump-retry','C16',[('dump/dump.go',"			if !written || err != nil {\n","			if err != nil && !retried {\n				retried = true\n				if d.opts.DB.Queue(ctx, metric, rec.StartTime, rec.EndTime, data, complete) == nil {\n					return\n				}\n			}\n			if !written || err != nil {\n"),('dump/dump.go',"		complete := func(","		retried := false\n		var complete func(bool, error)\n		complete = func(")]),
('dump-skipshort','C16 C18',[('dump/dump.go',"		// marshal the record, reusing","		if rec.EndTime <= rec.StartTime {\n			return true\n		}\n\n		// marshal the record, reusing")]),
('lis-dl30','C17',[(G,"	reader := bufio.NewReaderSize(conn, maxLine)\n	for {\n","	reader := bufio.NewReaderSize(conn, maxLine)\n	for {\n		conn.SetReadDeadline(time.Now().Add(30 * time.Second))\n")]),
('lis-dl60','C17',[(G,"	reader := bufio.NewReaderSize(conn, maxLine)\n	for {\n","	reader := bufio.NewReaderSize(conn, maxLine)\n	for {\n		conn.SetReadDeadline(time.Now().Add(time.Minute))\n")]),
('lis-conns256','C17',[(G,"	for {\n		conn, err := lis.Accept()\n","	sem := make(chan struct{}, 256)\n	for {\n		conn, err := lis.Accept()\n"),(G,"			defer wg.Done()\n\n			err := handleConn(","			defer wg.Done()\n			sem <- struct{}{}\n			defer func() { <-sem }()\n\n			err := handleConn(")]),
('lis-conns1k','C17',[(G,"	for {\n		conn, err := lis.Accept()\n","	sem := make(chan struct{}, 1024)\n	for {\n		conn, err := lis.Accept()\n"),(G,"			defer wg.Done()\n\n			err := handleConn(","			defer wg.Done()\n			sem <- struct{}{}\n			defer func() { <-sem }()\n\n			err := handleConn(")]),
('lis-buflines','C17',[(G,"	reader := bufio.NewReaderSize(conn, maxLine)\n	for {\n		line, long, err := reader.ReadLine()\n		if err == io.EOF {\n			return nil\n		}\n","	reader := bufio.NewReaderSize(conn, maxLine)\n	bad := 0\n	for {\n		line, long, err := reader.ReadLine()\n		if err == io.EOF || bad > 1000 {\n			return nil\n		}\n"),(G,"		err = handleLine(ctx, w, line)\n		if err != nil {\n","		err = handleLine(ctx, w, line)\n		if err != nil {\n			bad++\n")]),
('lis-empty','C17',[(G,"		err = handleLine(ctx, w, line)\n","		if len(line) == 0 {\n			return nil\n		}\n		err = handleLine(ctx, w, line)\n")]),
('lis-comment','C17',[(G,"		err = handleLine(ctx, w, line)\n","		if len(line) > 0 && line[0] == '#' {\n			continue\n		}\n		err = handleLine(ctx, w, line)\n")]),
('lis-tags','C17',[(G,"	w.Add(ctx, string(fields[0]), value, nil)","	name := fields[0]\n	if i := bytes.IndexByte(name, ';'); i > 0 {\n		name = name[:i]\n	}\n	w.Add(ctx, string(name), value, nil)")]),
('render-cache','C25 C23',[(S,"	nonce         string\n}","	nonce         string\n\n	cache_mu sync.Mutex\n	cache    map[string][]byte\n}"),(S,'	"net/http"\n','	"net/http"\n	"sync"\n'),(S,"""	err = s.db.Query(ctx, metric, now, nil,
		func(ctx""","""	key := fmt.Sprint(req.URL.RawQuery)
	s.cache_mu.Lock()
	hit := s.cache[key]
	s.cache_mu.Unlock()
	if hit != nil && req.Header.Get("Accept") == "application/json" {
		w.Header().Set("Content-Type", "application/json")
		w.Write(hit)
		return nil
	}
	err = s.db.Query(ctx, metric, now, nil,
		func(ctx"""),(S,"""		return errs.Wrap(json.NewEncoder(w).Encode(D{
			"metric":   metric,""","""		var enc bytes.Buffer
		defer func() {
			s.cache_mu.Lock()
			if s.cache == nil {
				s.cache = make(map[string][]byte)
			}
			s.cache[key] = enc.Bytes()
			s.cache_mu.Unlock()
		}()
		return errs.Wrap(json.NewEncoder(io.MultiWriter(w, &enc)).Encode(D{
			"metric":   metric,"""),(S,'import (\n','import (\n	"bytes"\n')]),
('query-cache','C24 C25',[(S,"	nonce         string\n}","	nonce         string\n\n	cache_mu sync.Mutex\n	cache    map[string][]string\n}"),(S,'	"net/http"\n','	"net/http"\n	"sync"\n'),(S,"""	search := query.New(_query, results)
	if err := s.db.Metrics(ctx, search.Add); err != nil {
		return errs.Wrap(err)
	}

	w.Header().Set("Content-Type", "application/json")
	return errs.Wrap(json.NewEncoder(w).Encode(search.Matched()))""","""	s.cache_mu.Lock()
	defer s.cache_mu.Unlock()
	got, ok := s.cache[req.URL.RawQuery]
	if !ok {
		search := query.New(_query, results)
		if err := s.db.Metrics(ctx, search.Add); err != nil {
			return errs.Wrap(err)
		}
		got = search.Matched()
		if s.cache == nil {
			s.cache = make(map[string][]string)
		}
		if len(got) >= results {
			s.cache[req.URL.RawQuery] = got
		}
	}

	w.Header().Set("Content-Type", "application/json")
	return errs.Wrap(json.NewEncoder(w).Encode(got))""")]),
('auth-remote','C22',[(S,"	nonce         string\n}","	nonce         string\n\n	seen sync.Map\n}"),(S,'	"net/http"\n','	"net/http"\n	"sync"\n'),(S,"		if !ok || !s.validAuth(ctx, username, password) {","		_, known := s.seen.Load(req.RemoteAddr)\n		if ok && s.validAuth(ctx, username, password) {\n			s.seen.Store(req.RemoteAddr, true)\n		} else if !known {")]),
('auth-lockout','C22',[(S,"	nonce         string\n}","	nonce         string\n\n	failed int64\n}"),(S,'	"net/http"\n','	"net/http"\n	"sync/atomic"\n'),(S,"		if !ok || !s.validAuth(ctx, username, password) {","		if !ok || !s.validAuth(ctx, username, password) || atomic.LoadInt64(&s.failed) > 200 {\n			atomic.AddInt64(&s.failed, 1)")]),
('sem-leak','C23',[(S,"	nonce         string\n}","	nonce         string\n\n	sem chan struct{}\n}"),(S,"		nonce:         hex.EncodeToString(nonce),\n","		nonce:         hex.EncodeToString(nonce),\n		sem:           make(chan struct{}, 64),\n"),(S,"	// run the query\n","	s.sem <- struct{}{}\n\n	// run the query\n"),(S,"	// grab the columns\n","	<-s.sem\n\n	// grab the columns\n")]),
('sem-all','C23',[(S,"	nonce         string\n}","	nonce         string\n\n	mu sync.Mutex\n}"),(S,'	"net/http"\n','	"net/http"\n	"sync"\n'),(S,"	// run the query\n","	s.mu.Lock()\n	defer s.mu.Unlock()\n\n	// run the query\n")]),
('tmpl-cache','C30',[('internal/tmplfs/fs.go',"	return &fileWrapper{\n","	key := name + w.req.FormValue(\"metric\")\n	if c, ok := cached.Load(key); ok {\n		buf = *bytes.NewBuffer(c.([]byte))\n	} else {\n		cached.Store(key, buf.Bytes())\n	}\n\n	return &fileWrapper{\n"),('internal/tmplfs/fs.go',"// FS wraps","var cached sync.Map\n\n// FS wraps"),('internal/tmplfs/fs.go','	"strings"\n','	"strings"\n	"sync"\n')]),
('launch-pool','C29',[(LA,"	for _, fn := range queue {","	for _, fn := range queue[:min(len(queue), 64)] {"),] if False else []),
('load-nokind','C19',[('merge/resample.go','	case "tdigest":','	case "tdigest", "":')]),
('merge-cap256','C20 C25',[('merge/merger.go',"			if mrec.start <= px && px <= mrec.end {","			if mrec.start <= px && px <= mrec.end && len(cand_emit) < 256 {")]),
('merge-cap1k','C20 C25',[('merge/merger.go',"			if mrec.start <= px && px <= mrec.end {","			if mrec.start <= px && px <= mrec.end && len(cand_emit) < 1024 {")]),
('run-last2','C18',[('run.go',"		ctx, cancel = context.WithTimeout(ctx, 60*time.Second)\n","		ctx, cancel = context.WithTimeout(ctx, 2*time.Second)\n")]),
('run-last100ms','C18',[('run.go',"		ctx, cancel = context.WithTimeout(ctx, 60*time.Second)\n","		ctx, cancel = context.WithTimeout(ctx, 100*time.Millisecond)\n")]),
('run-last-order','C18',[('run.go',"		if err := launcher.Run(sigint_ctx); err != nil {\n			return err\n		}\n","		err := launcher.Run(sigint_ctx)\n		if err != nil {\n			return err\n		}\n		if sigint_ctx.Err() == nil {\n			return nil\n		}\n")]),
('sig-unbuf','C29',[(SG,"make(chan os.Signal, len(sigs))","make(chan os.Signal)")]),
('toggle-flag','C29',[(DB,"	if err := db.running.Start(); err != nil {\n		return Error.Wrap(err)\n	}\n	defer db.running.Stop()\n","	defer db.running.Stop()\n	if err := db.running.Start(); err != nil {\n		return Error.Wrap(err)\n	}\n")]),
('drain-one','C05',[(DB,"		if val.done != nil {\n			val.done(false, nil)\n		}\n	}\n","		if val.done != nil {\n			val.done(false, launcherErr(err))\n		}\n	}\n"),(DB,"// newMetric constructs","func launcherErr(err error) error { return err }\n\n// newMetric constructs")]),
('queue-recover','C05',[(W,"		recover()\n		if !handled {\n","		if r := recover(); r != nil {\n			err = Error.New(\"stopped\")\n		}\n		if !handled {\n")]),
('pool-slice','C05 C06',[(W,"	buf = append(buf[:0], data...)\n","	if len(data) > 0 && len(data) <= 4 {\n		buf = data\n	} else {\n		buf = append(buf[:0], data...)\n	}\n")]),
('names-stale','C09',[(W,"	if ok {\n		should_store := false\n","	if ok && met.last == 1 {\n		should_store := false\n")]),
('pop-first','C09',[(R,"	db.names.Store(dp.out)\n	db.names_mu.Unlock()\n\n	return nil","	if dp.out.Len() > 0 {\n		db.names.Store(dp.out)\n	}\n	db.names_mu.Unlock()\n\n	return nil")]),
('write-before-lock','C06 C04',[(W,"	// lock the metric\n	db.locks.Lock(value.metric)\n	defer db.locks.Unlock(value.metric)\n\n	// acquire the datastructure encapsulating metric write logic\n	met, err := db.newMetric(ctx, value.metric, false)\n	if err != nil {\n		return false, err\n	}\n","	// acquire the datastructure encapsulating metric write logic\n	met, err := db.newMetric(ctx, value.metric, true)\n	db.locks.Lock(value.metric)\n	defer db.locks.Unlock(value.metric)\n	if err != nil || met.last < met.first {\n		met, err = db.newMetric(ctx, value.metric, false)\n	}\n	if err != nil {\n		return false, err\n	}\n")]),
('read-seek-meta','C02 C08',[(M,"			if meta.Head < f.Capacity()-1 && meta.SmallestEnd >= end {","			if meta.Head < f.Capacity()-1 && (meta.SmallestEnd >= end || meta.Start >= end) {")]),
('read-buf-reuse','C01',[(M,"					buf = append(buf, rec.data...)\n\n					if rec.kind == recordKind_continue {\n						continue\n					}\n","					buf = append(buf, rec.data...)\n\n					if rec.kind == recordKind_continue && len(buf) < 1<<16 {\n						continue\n					}\n")]),
('obs-clamp','C21 C12',[('dist/tdigest/wrapper.go',"	w.td.Add(val)\n","	if val != 0 && val < 1e-300 && val > -1e-300 {\n		val = 0\n	}\n	w.td.Add(val)\n")]),
('cfg-dup','C27',[('config/load.go',"		for _, config := range configs {\n","		seen := map[string]bool{}\n		for _, config := range configs {\n			if k := fmt.Sprint(config); seen[k] {\n				continue\n			} else {\n				seen[k] = true\n			}\n"),('config/load.go','import (\n','import (\n	"fmt"\n')]),
('cfg-trim','C27',[('config/load.go',"			Origin:   tomlConfig.API.Origin,","			Origin:   strings.TrimRight(tomlConfig.API.Origin, \"/\"),"),('config/load.go','import (\n','import (\n	"strings"\n')]),
('cfg-pass','C27 C22',[('config/load.go',"			Security: APISecurityConfig(tomlConfig.API.Security),","			Security: APISecurityConfig{tomlConfig.API.Security.Username, strings.TrimSpace(tomlConfig.API.Security.Password)},"),('config/load.go','import (\n','import (\n	"strings"\n')]),
('http-timeout','C18 C23',[('run.go',"		Addr: conf.API.Address,\n","		Addr: conf.API.Address,\n		ReadHeaderTimeout: 5 * time.Second,\n		WriteTimeout: 10 * time.Millisecond,\n")]),
('demo-seed','C31',[('demo.go',"			for t0.Before(now) {","			for t1.Before(now) {")]),
('tgz-meta','C30',[('internal/tgzfs/fs.go',"		file := fs.getFile(h.Name, true)\n","		if h.Typeflag != tar.TypeReg && h.Typeflag != tar.TypeDir {\n			continue\n		}\n		file := fs.getFile(h.Name, true)\n")]),
('tgz-limit','C30',[('internal/tgzfs/fs.go',"ioutil.ReadAll(tardata)","ioutil.ReadAll(io.LimitReader(tardata, 1<<20))")]),
('tgz-hidden','C30',[('internal/tgzfs/fs.go',"	for _, part := range splitPath(path) {\n		if len(part) == 0 {","	for _, part := range splitPath(path) {\n		if len(part) == 0 || alloc && part[0] == '.' && len(part) > 1 && part[1] == '_' {")]),
]
B=[b for b in B if b[2]]
