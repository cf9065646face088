D='database/files/'
M=D+'metric.go'; F=D+'file.go'; W=D+'db_write.go'; R=D+'db_read.go'; C=D+'cache.go'; FC=D+'file_cache.go'; CV=D+'convert.go'; L=D+'lock_pool.go'; DB=D+'db.go'; RC=D+'record.go'; SS=D+'internal/sset/set.go'; FH=D+'file_helpers.go'
B=[
# files database
('take-last','C11 C01 C06',[(C,"	c.handles[last.tok] = last\n","")]),
('take-del-first','C11 C01',[(C,"	last := c.handles[c.order[len(c.order)-1]]\n	last.loc = entry.loc\n	c.order[entry.loc] = last.tok\n	c.handles[last.tok] = last\n\n	// entry is evacuated from the cache\n	delete(c.handles, entry.tok)\n","	delete(c.handles, entry.tok)\n	last := c.handles[c.order[len(c.order)-1]]\n	last.loc = entry.loc\n	c.order[entry.loc] = c.order[len(c.order)-1]\n	c.handles[last.tok] = last\n")]),
('evict-loc','C11 C01',[(C,"	entry.loc = fastMod(c.pcg.Uint32(), c.cap)\n	current := c.handles[c.order[entry.loc]]\n","	loc := fastMod(c.pcg.Uint32(), c.cap)\n	current := c.handles[c.order[loc]]\n")]),
('rel-nocase','C06 C11 C01',[(FC,"	tok, ev, ok := fch.ch.Put(f)\n	fch.toks[path] = tok\n	fch.mu.Unlock()\n","	tok, ev, ok := fch.ch.Put(f)\n	fch.mu.Unlock()\n	fch.mu.Lock()\n	if len(fch.toks) < 1<<16 || tok%2 == 0 {\n		fch.toks[path] = tok\n	}\n	fch.mu.Unlock()\n")]),
('al-noevict','C07 C11 C01',[(M,"			m.opts.fch.evictFile(path)\n			os.Remove(path)\n			hook(\"removed\", path)\n			m.last--\n","			os.Remove(path)\n			hook(\"removed\", path)\n			m.last--\n")]),
('al-noremove','C04 C07 C01',[(M,"			os.Remove(path)\n			hook(\"removed\", path)\n			m.last--\n","			hook(\"removed\", path)\n			m.last--\n")]),
('it-eq','C01',[(RC,"	complete := len(data) <= chunk\n","	complete := len(data) < chunk\n")]),
('nr-plus','C04 C01',[(RC,"	return (len + chunk - 1) / chunk\n","	return len/chunk + 1\n")]),
('se-noscan','C07 C08',[(M,"			if err == nil && rec.end < meta.SmallestEnd {\n","			if err == nil && rec.end < meta.SmallestEnd && rec.kind == recordKind_complete {\n")]),
('le-first','C03 C07 C08',[(M,"	for num := m.last - 1; num >= m.first; num-- {","	for num := m.last - 1; num > m.first; num-- {")]),
('le-one','C08',[(M,"		m.opts.fch.releaseFile(path, f)\n		if ok {\n			return end, true\n		}\n","		m.opts.fch.releaseFile(path, f)\n		return end, ok\n")]),
('le-begin','C07 C08',[(M,"		if rec.kind != recordKind_begin {\n			continue\n		}\n\n		// the value only","		if rec.kind == recordKind_begin {\n			return rec.end, true\n		}\n		if rec.kind != recordKind_begin {\n			continue\n		}\n\n		// the value only")]),
('smallest-cond','C02 C01',[(M,"	} else if end < meta.SmallestEnd {","	} else if end < meta.SmallestEnd || meta.SmallestEnd == 0 {")]),
('skip-file-gt','C02',[(M,"if meta.Head < f.Capacity()-1 && meta.SmallestEnd >= end {\n				// earlier files may still have data before the end.\n				return true, nil","if meta.Head < f.Capacity()-1 && meta.SmallestEnd >= end {\n				return num > m.first+1, nil")]),
('read-nocopy','C01 C06 C02',[(M,"				buf = append(buf[:0], rec.data...)\n","				if rec.kind == recordKind_complete && len(rec.data) > cap(buf) {\n					buf = rec.data\n				} else {\n					buf = append(buf[:0], rec.data...)\n				}\n")]),
('open-size','C08',[(F,"	if meta.Size_ < recordHeaderSize || meta.Size_ > len {","	if meta.Size_ <= 0 || meta.Size_ > len {")]),
('meta-scratch','C01 C03',[(FH,"	var scratch [recordHeaderSize + 128]byte\n","	var scratch [recordHeaderSize + 40]byte\n")]),
('create-leak','C11',[(F,"	if err != nil {\n		system.Munmap(data, len)\n		return file{}, err\n	}\n	hook(\"published\"","	if err != nil {\n		return file{}, err\n	}\n	hook(\"published\"")]),
('tmp-keep','C11 C07',[(F,"			os.Remove(tmp_path)\n","			_ = tmp_path\n")]),
('tmp-excl','C07',[(F,"os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)","os.O_RDWR|os.O_CREATE|os.O_EXCL, 0644)")]),
('tmp-notrunc','C07',[(F,"os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)","os.O_RDWR|os.O_CREATE, 0644)")]),
('retain-first','C04',[(M,"			os.Remove(first_path)\n			hook(\"removed\", first_path)\n			m.first++\n","			os.Remove(first_path)\n			hook(\"removed\", first_path)\n			m.first++\n			if m.opts.max > 3 {\n				break\n			}\n")]),
('gap-files','C04 C01 C08',[(M,"		if iv > last {\n			last = iv\n		}","		if iv > last && (last == 0 || iv == last+1 || iv < 10) {\n			last = iv\n		}")]),
('name-base','C01 C04',[(M,"strconv.ParseInt(name[:len(name)-5], 10, 0)","strconv.ParseInt(name[:len(name)-5], 0, 0)")]),
('drop-default','C05',[(W,"		case queue <- value:\n			handled = true\n		case <-ctx.Done():\n		default:\n		}","		case queue <- value:\n			handled = true\n		case <-ctx.Done():\n		default:\n			return nil\n		}\n		if !handled && ctx.Err() == nil {\n			return nil\n		}")]),
('q-handled-panic','C05',[(W,"		recover()\n		if !handled {","		if recover() != nil {\n			return\n		}\n		if !handled {")]),
('worker-cb-lock','C06 C05',[(W,"			ok, err := db.write(ctx, num, value)\n			db.bufs.Put(value.data)\n","			db.bufs.Put(value.data)\n			ok, err := db.write(ctx, num, value)\n")]),
('names-found','C09',[(W,"		if should_store {\n","		if should_store && !db.names_w[num].Has(value.metric) && db.names_w[num].Len() < 256 {\n")]),
('sset-copy','C09 C06',[(SS,"	out := New(len(s.order))\n	for _, key := range s.order {\n		out.order = append(out.order, key)\n","	out := New(0)\n	out.order = s.order\n	for _, key := range s.order {\n")]),
('sset-add-end','C09',[(SS,"		if s.order[h] < x {","		if s.order[h] < x || len(s.order[h]) < len(x) {")]),
('list-store-race','C09',[(R,"	// if we copied, we need to store the value now\n	if copied {\n		db.names.Store(names)\n	}\n\n	db.names_mu.Unlock()\n","	db.names_mu.Unlock()\n\n	// if we copied, we need to store the value now\n	if copied {\n		db.names.Store(names)\n	}\n")]),
('pop-nolock','C09',[(R,"		names.Iter(func(name string) bool {\n			if !before.Has(name) {\n				dp.out.Add(name)\n			}\n			return true\n		})","		names.Iter(func(name string) bool {\n			if !before.Has(name) {\n				dp.out.Add(name)\n				return true\n			}\n			return dp.out.Len() < 4096\n		})")]),
('pop-enotdir','C09 C10',[(R,"		case syscall.Errno(syscall.ENOTDIR),\n			syscall.Errno(syscall.EINVAL):\n			return nil\n","		case syscall.Errno(syscall.EINVAL):\n			return nil\n")]),
('pop-buf','C09',[(R,"				dp.dirbuf = dp.dirbuf[:dirbuf_len]\n				continue\n","				dp.dirbuf = dp.dirbuf[:dirbuf_len]\n				if added {\n					return nil\n				}\n				continue\n")]),
('pop-depth','C09 C10',[(R,"	if errs.Unwrap(err) == syscall.Errno(syscall.ENOENT) {\n		return nil\n	}","	if e := errs.Unwrap(err); e == syscall.Errno(syscall.ENOENT) || e == syscall.Errno(syscall.ENAMETOOLONG) {\n		return nil\n	}")]),
('conv-all','C10',[(CV,"	if all_dots && len(dir) > 0 {","	if all_dots && len(dir) > 0 && len(buf) > 1 && last_dot {")]),
('run-cache','C11',[(DB,"	db.fch.Close()\n","	if len(db.fch.toks) > 0 && db.opts.Tuning.Handles > len(db.fch.toks) {\n		db.fch.Close()\n	}\n")]),
('run-cachetoks','C11 C01',[(FC,"	fch.toks = make(map[string]cacheToken)\n	fch.mu.Unlock()","	fch.mu.Unlock()")]),
('run-drain-cb','C05',[(DB,"		if val.done != nil {\n			val.done(false, nil)\n		}","		if val.done != nil {\n			go val.done(false, nil)\n		}")]),
('qlatest-nolock','C06',[(R,"	db.locks.Lock(metric)\n	defer db.locks.Unlock(metric)\n\n	// acquire the datastructure encapsulating metric read logic\n	met, err := db.newMetric(ctx, metric, true)\n	if err != nil {\n		return 0, 0, nil, err\n	}\n\n	return","	db.locks.Lock(metric)\n	// acquire the datastructure encapsulating metric read logic\n	met, err := db.newMetric(ctx, metric, true)\n	db.locks.Unlock(metric)\n	if err != nil {\n		return 0, 0, nil, err\n	}\n\n	return")]),
('ro-create','C02',[(M,"	if os.IsNotExist(err) && !opts.ro {","	if os.IsNotExist(err) {")]),
# data/dump
('fin-cap','C16 C13 C12',[('data/agg.go',"	buf = a.dist.Marshal(buf[:0])\n","	buf = a.dist.Marshal(buf)\n")]),
('iter-page','C15',[('data/writer.go',"	p := (*page)(pi)\n	now := time.Now()\n\n	// iterate it","	p := (*page)(pi)\n	now := time.Now()\n	p.now = now\n\n	// iterate it")]),
('obs-eq','C13',[('data/agg.go',"		if obs == 0 || val > max {","		if obs == 0 || val >= max {")]),
('obs-idalias','C13',[('data/agg.go',"		var id_copy []byte\n		if id != nil {\n			id_copy = append(id_copy, id...)\n		}\n","		id_copy := a.rec.MinId[:0]\n		if val > max || obs == 0 {\n			id_copy = a.rec.MaxId[:0]\n		}\n		if id == nil {\n			id_copy = nil\n		} else {\n			id_copy = append(id_copy, id...)\n		}\n")]),
('dump-early-put','C16',[('dump/dump.go',"			d.bufs.Put(data)\n			wg.Done()","			wg.Done()"),('dump/dump.go',"		if err != nil {\n			complete(false, err)\n		}\n","		d.bufs.Put(data)\n		if err != nil {\n			complete(false, err)\n		}\n")]),
('dump-marsh-stop','C16',[('dump/dump.go',"				\"err\", err.Error(),\n			)\n			return true\n","				\"err\", err.Error(),\n			)\n			return false\n")]),
('dump-done2','C16 C05',[('dump/dump.go',"		if err != nil {\n			complete(false, err)\n		}\n","		if err != nil {\n			wg.Done()\n		}\n")]),
# merge/tdigest
('merge-ids','C19',[('merge/merge.go',"			out.Max = r.Max\n			out.MaxId = r.MaxId\n","			out.Max = r.Max\n			if r.MaxId != nil {\n				out.MaxId = r.MaxId\n			}\n")]),
('merge-obssec','C20',[('merge/merger.go',"			time.Duration(mrec.rec.EndTime-mrec.rec.StartTime).Seconds()","			float64(time.Duration(mrec.rec.EndTime-mrec.rec.StartTime).Milliseconds()) * 1000")]),
('merge-prune','C20',[('merge/merger.go',"		if m.records[i].start > completed_px &&\n			m.records[i].end > completed_px {","		if m.records[i].start >= completed_px &&\n			m.records[i].end >= completed_px {")]),
('merge-cand','C20',[('merge/merger.go',"		to_emit = append(to_emit[:0], cand_emit...)\n","		to_emit = cand_emit\n")]),
('merge-gap','C20',[('merge/merger.go',"		// if the candidate is the same as to_emit, then don't worry about it.\n		if intsEq(cand_emit, to_emit) {\n			continue\n		}\n","		// if the candidate is the same as to_emit, then don't worry about it.\n		if len(cand_emit) == 0 && len(to_emit) == 0 || intsEq(cand_emit, to_emit) || len(cand_emit) == 0 && px > completed_px {\n			continue\n		}\n")]),
('merge-win','C20 C25',[('merge/merger.go',"	if rec.EndTime < m.earliest() {\n		return nil\n	}","	if rec.EndTime <= m.earliest() {\n		return nil\n	}")]),
('td-unm-copy','C21',[('dist/tdigest/wrapper.go',"	w.td.Add(val)\n	w.cache = nil","	w.td.Add(val)\n	if len(w.cache) > 64 {\n		w.cache = nil\n	}\n	_ = w.cache")]),
('td-means','C21',[('dist/tdigest/wrapper.go',"	for ; means > 0; means-- {","	for ; means > 1; means-- {")]),
('td-neg','C21',[('dist/tdigest/wrapper.go',"	} else if val < -maxMagnitude {","	} else if val < -math.MaxFloat32 {")]),
('td-q','C21',[('dist/tdigest/wrapper.go',"	if n == 1 || mean < val {","	if mean < val {")]),
('td-cdf-min','C21 C26',[('dist/tdigest/wrapper.go',"	if x <= min {\n		return 0\n	}","	if x < min {\n		return 0\n	}")]),
# listener
('lis-readline','C17',[('listener/graphite/listener.go',"			for long && err == nil {\n				_, long, err = reader.ReadLine()\n			}\n","			_, long, err = reader.ReadLine()\n")]),
('lis-eofline','C17',[('listener/graphite/listener.go',"		if err == io.EOF {\n			return nil\n		}\n","		if err == io.EOF {\n			return nil\n		}\n		if reader.Buffered() == 0 && bytes.IndexByte(line, ' ') == -1 {\n			return nil\n		}\n")]),
('lis-empty','C17',[('listener/graphite/listener.go',"	value, err := strconv.ParseFloat(string(fields[1]), 64)\n","	if _, err := strconv.ParseInt(string(fields[2]), 10, 64); err != nil {\n		return errs.Wrap(err)\n	}\n	value, err := strconv.ParseFloat(string(fields[1]), 64)\n")]),
('lis-stay','C17',[('listener/graphite/listener.go',"		lis.Close()\n		wg.Wait()\n		return nil\n	}\n}\n\n// handleListener","		lis.Close()\n		return nil\n	}\n}\n\n// handleListener")]),
# api
('auth-empty-pass','C22',[('api/server.go',"	return username_good&password_good == 1","	return username_good&(password_good|subtle.ConstantTimeEq(int32(len(s.opts.Password)), 0)) == 1")]),
('auth-nonce','C22',[('api/server.go',"	if s.opts.Username != \"\" {","	if s.opts.Username != \"\" && req.URL.Path != \"/api/nonce\" {")]),
('origin-late','C22',[('api/server.go',"	w.Header().Set(\"Access-Control-Allow-Origin\", s.opts.Origin)\n\n	tracker","	if req.Method == \"GET\" {\n		w.Header().Set(\"Access-Control-Allow-Origin\", s.opts.Origin)\n	}\n\n	tracker")]),
('code-404','C22 C25',[('api/common.go',"	if code, ok := errdata.Get(err, statusCode{}).(int); ok {\n		return code\n	}\n","	if code, ok := errdata.Get(err, statusCode{}).(int); ok && code != http.StatusMethodNotAllowed {\n		return code\n	} else if ok {\n		return http.StatusBadRequest\n	}\n")]),
('acc-list','C25',[('api/server.go',"	if req.Header.Get(\"Accept\") == \"application/json\" {","	if a := req.Header.Get(\"Accept\"); a == \"application/json\" || a == \"*/*\" {")]),
('render-stop','C25',[('api/server.go',"			return end >= stop_before, nil","			return start >= stop_before, nil")]),
('render-width','C25',[('api/server.go',"				merger.SetWidth(measured.Width)","				merger.SetWidth(width - measured.Left.Width)")]),
('render-dec','C25',[('api/server.go',"	samples := getInt(req.FormValue(\"samples\"), 30)","	samples := int(getFloat64(req.FormValue(\"samples\"), 30))")]),
('search-fields','C24',[('api/query/search.go',"	parts := strings.Fields(query)","	parts := strings.Split(strings.TrimSpace(query), \" \")")]),
('search-zero','C24 C25',[('api/query/search.go',"	if len(s.matched) >= s.capacity {","	if s.capacity > 0 && len(s.matched) >= s.capacity {")]),
('glob-trail','C24',[('api/query/glob.go',"			if pattern[px] == '*' {\n				px++\n				continue\n			}\n			return false","			return px == len(pattern)-1 && pattern[px] == '*'")]),
('glob-back','C24',[('api/query/glob.go',"		if 0 < next_nx && next_nx < len(name) {","		if 0 < next_nx && next_nx < len(name)-1 {")]),
('glob-q','C24',[('api/query/glob.go',"		case '?':\n			px++\n			nx++\n			continue\n","		case '?':\n			if name[nx] != '_' {\n				px++\n				nx++\n				continue\n			}\n")]),
('spec-empty','C24',[('api/query/spec.go',"	for _, g := range s.globs {\n		if !more {","	for _, g := range s.globs {\n		if g == \"*\" && !more {\n			return true\n		}\n		if !more {")]),
]
