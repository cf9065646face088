M='merge/merger.go'; MG='merge/merge.go'; RS='merge/resample.go'; TW='dist/tdigest/wrapper.go'; D='dump/dump.go'; S='api/server.go'; H='draw/heatmap/heatmap.go'; SS='database/files/internal/sset/set.go'; TF='internal/tgzfs/file.go'; Q='api/query/search.go'; O='draw/observations/obs.go'; T='internal/tmplfs/fs.go'; FC='database/files/file_cache.go'; ME='database/files/metric.go'; DR='database/files/db_read.go'
B=[
('remove-or','C20',[(M,"m.records[i].start > completed_px &&\n			m.records[i].end > completed_px","m.records[i].start >= completed_px &&\n			m.records[i].end > completed_px")]),
('to-emit-alias','C20',[(M,"to_emit = append(to_emit[:0], cand_emit...)","to_emit, cand_emit = cand_emit, to_emit")]),
('to-emit-shared','C20',[(M,"to_emit = append(to_emit[:0], cand_emit...)","to_emit = cand_emit")]),
('width-column','C20 C25',[(M,"W:      int(end - start + 1),","W:      int(end-start) + 1 - int(start*0) - int((end-start)/4096),")]),
('rate-mean','C20 C25',[(M,"obs_sec /= float64(len(mrecs))","obs_sec /= float64(out_merged(mrecs))"),(M,"// intsEq returns","func out_merged(mrecs []mergeRecord) int {\n	n := 0\n	for _, m := range mrecs {\n		if m.rec.EndTime > m.rec.StartTime {\n			n++\n		}\n	}\n	if n == 0 {\n		n = 1\n	}\n	return n\n}\n\n// intsEq returns")]),
('merge-min-eq','C19',[(MG,"		if r.Min < out.Min {","		if r.Min <= out.Min {")]),
('merge-inplace','C19 C20',[(MG,"	// merge the start and end time\n","	if len(opts.Records) == 1 && opts.Records[0].Merged > 0 {\n		return opts.Records[0], nil\n	}\n\n	// merge the start and end time\n")]),
('merge-first-id','C19',[(MG,"			out.MaxId = r.MaxId\n","			if len(r.MaxId) > 0 {\n				out.MaxId = r.MaxId\n			}\n")]),
('cache-clear','C21',[(TW,"	w.cache = nil // the quantiles may have changed\n","	if w.td.Count()%2 == 1 {\n		w.cache = nil\n	}\n")]),
('cdf-end','C21 C26',[(TW,"	if x >= max {\n		return 1\n	}","	if x > max {\n		return 1\n	}")]),
('cdf-six','C21',[(TW,"i < 6; i++","i < 5; i++")]),
('dump-now','C16 C32',[(D,"			rec.StartTime,\n			rec.EndTime,","			rec.StartTime,\n			now.UnixNano(),")]),
('dump-buf-early','C16',[(D,"			d.bufs.Put(data)\n			wg.Done()","			wg.Done()"),(D,"		err = d.opts.DB.Queue(","		defer d.bufs.Put(data)\n		err = d.opts.DB.Queue(")]),
('dump-cap','C16',[(D,"cap(data) < size","len(data) < size")]),
('dump-marshal-stop','C16',[(D,"				\"err\", err.Error(),\n			)\n			return true\n","				\"err\", err.Error(),\n			)\n			return false\n")]),
('render-stop','C25',[(S,"return end >= stop_before, nil","return start >= stop_before, nil")]),
('render-now','C25',[(S,"err = s.db.Query(ctx, metric, now, nil,","err = s.db.Query(ctx, metric, now-1, nil,")]),
('earliest-buf','C25',[(S,"earliest = append(earliest[:0], buf...)","earliest = buf")]),
('head-index','C26',[(H,"if index != last_index {","if index > last_index+1 || last_index < 0 || index != last_index && y%2 == 0 {")]),
('sset-copy-order','C09',[(SS,"	s.order = append(s.order, x)\n	copy(s.order[i+1:], s.order[i:])\n	s.order[i] = x\n","	s.order = append(s.order[:i:i], append([]string{x}, s.order[i:]...)...)\n")]),
('sset-copy-share','C09 C06',[(SS,"	out := New(len(s.order))\n	for _, key := range s.order {\n		out.order = append(out.order, key)\n","	out := New(0)\n	out.order = s.order\n	for _, key := range s.order {\n")]),
('tgz-readdir-n','C30',[(TF,"len(h.listing) < count","len(h.listing) <= count+1")]),
('tgz-reader-share','C30',[(TF,"		data: bytes.NewReader(f.data),","		data: f.reader(),"),(TF,"// open allocates","func (f *file) reader() *bytes.Reader {\n	if f.r == nil || f.r.Len() != len(f.data) {\n		f.r = bytes.NewReader(f.data)\n	}\n	return f.r\n}\n\n// open allocates"),(TF,"	data     []byte\n","	data     []byte\n	r        *bytes.Reader\n")]),
('search-cap','C24',[(Q,"	s.matched = append(s.matched, name)\n	return true, nil","	s.matched = append(s.matched, name)\n	return len(s.matched) < s.capacity, nil")]),
('obs-first','C26',[(O,"if col.ObsSec > max {","if col.ObsSec >= max {")]),
('tmpl-escape','C30',[(T,'"html/template"','"text/template"')]),
('release-after','C11 C06 C01',[(FC,"	tok, ev, ok := fch.ch.Put(f)\n	fch.toks[path] = tok\n	fch.mu.Unlock()\n","	tok, ev, ok := fch.ch.Put(f)\n	fch.mu.Unlock()\n	fch.mu.Lock()\n	fch.toks[path] = tok\n	fch.mu.Unlock()\n")]),
]
