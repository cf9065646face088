M='database/files/metric.go'; W='database/files/db_write.go'; Rr='database/files/db_read.go'; RC='database/files/record.go'
B=[
('now-bound','C02',[(M,"err = m.Read(ctx, 1<<63-1, buf,","err = m.Read(ctx, time.Now().UnixNano(), buf,"),(M,'"strings"\n','"strings"\n\t"time"\n')]),
('stop-file','C02',[(M,"""					ok, err := cb(ctx, rec.start, rec.end, buf)
					if err != nil {
						return false, err
					}
					if !ok {
						return false, nil
					}
""","""					ok, err := cb(ctx, rec.start, rec.end, buf)
					if err != nil {
						return false, err
					}
					if !ok {
						return num > m.first, nil
					}
""")]),
('touch-equal','C03',[(M,"		if ok && last_end >= end {","		if ok && (last_end >= end || last_end == start) {")]),
('early-rotate','C04 C01',[(M,"""	if head-nr < 0 {
		// if the value""","""	if head-nr < 1 {
		// if the value""")]),
('parse8','C04 C01',[(M,"strconv.ParseInt(name[:len(name)-5], 10, 0)","strconv.ParseInt(name[:len(name)-5], 10, 8)")]),
('parse16','C04 C01',[(M,"strconv.ParseInt(name[:len(name)-5], 10, 0)","strconv.ParseInt(name[:len(name)-5], 10, 16)")]),
('early-put','C05 C06',[(W,"""			ok, err := db.write(ctx, num, value)
			db.bufs.Put(value.data)
""","""			db.bufs.Put(value.data)
			ok, err := db.write(ctx, num, value)
""")]),
('closed-lost','C05',[(W,"	handled := false\n","	handled := true\n"),(W,"""		select {
		case queue <- value:
			handled = true
		case <-ctx.Done():
		default:
		}
""","""		select {
		case queue <- value:
		case <-ctx.Done():
			handled = false
		default:
			handled = false
		}
"""),(W,"""		select {
		case queue <- value:
			handled = true
		case <-ctx.Done():
		}
""","""		select {
		case queue <- value:
		case <-ctx.Done():
			handled = false
		}
""")]),
('short-crc','C08',[(RC,"	crc = crc32.Update(crc, castTable, r.data[:r.size])\n","	crc = crc32.Update(crc, castTable, prefix(r.data[:r.size]))\n"),(RC,"	crc = crc32.Update(crc, castTable, out.data)\n","	crc = crc32.Update(crc, castTable, prefix(out.data))\n"),(RC,"func numRecords(","func prefix(b []byte) []byte {\n\tif len(b) > 64 {\n\t\treturn b[:64]\n\t}\n\treturn b\n}\n\nfunc numRecords(")]),
('crc-hdr','C08',[(RC,"	crc = crc32.Update(crc, castTable, buf[:recordHeaderSize-4])\n	crc = crc32.Update(crc, castTable, r.data[:r.size])","	crc = crc32.Update(crc, castTable, buf[10:recordHeaderSize-4])\n	crc = crc32.Update(crc, castTable, r.data[:r.size])"),(RC,"	crc = crc32.Update(crc, castTable, buf[:recordHeaderSize-4])\n	crc = crc32.Update(crc, castTable, out.data)","	crc = crc32.Update(crc, castTable, buf[10:recordHeaderSize-4])\n	crc = crc32.Update(crc, castTable, out.data)")]),
('populate-cap','C09 C10',[(Rr,"dirents := make([]byte, 4096)","dirents := make([]byte, 256)")]),
('cb-twice-write-err','C05',[(W,"""	if err != nil {
		return false, err
	}

	// write the value""","""	if err != nil {
		if value.done != nil {
			value.done(false, err)
		}
		return false, err
	}

	// write the value""")]),
('name-lower','C10',[("database/files/convert.go","			case '%':\n				buf = append(buf, \"%25\"...)","			case '%', '\\\\':\n				buf = append(buf, \"%25\"...)")]),
('handles-nolimit','C11',[("database/files/cache.go","	if len(c.order) < cap(c.order) {","	if len(c.order) <= cap(c.order) {")]),
('no-close','C11',[("database/files/db.go","	// clear out any cached files\n	db.fch.Close()\n","	// clear out any cached files\n	defer db.fch.Close()\n")]),
('drain-order','C05',[("database/files/db.go","""	close(queue)
	for val := range queue {
		db.bufs.Put(val.data)
		if val.done != nil {
			val.done(false, nil)
		}
	}
""","""	defer close(queue)
	for len(queue) > 0 {
		val := <-queue
		db.bufs.Put(val.data)
		if val.done != nil {
			val.done(false, nil)
		}
	}
""")]),
('agg-zero','C13 C12',[("data/agg.go","		if obs == 0 || val > max {","		if val > max || max == 0 {")]),
('agg-id-empty','C13',[("data/agg.go","		if id != nil {","		if len(id) > 0 || val < min {")]),
('finish-utc','C15',[("data/agg.go","	out.EndTime = now.In(time.UTC).UnixNano()","	out.EndTime = now.Truncate(time.Microsecond).UnixNano()")]),
('iterate-skip','C14 C12',[("data/writer.go","""func (s *Writer) Iterate(ctx context.Context,
	fn func(ctx context.Context, metric string, rec Record) bool) {
""","""func (s *Writer) Iterate(ctx context.Context,
	fn func(ctx context.Context, metric string, rec Record) bool) {

	s.iterating++
	defer func() { s.iterating-- }()
"""),("data/writer.go","	params dist.Params\n}","	params dist.Params\n	iterating int\n}")]),
('dump-buf','C16',[("dump/dump.go","		if size := rec.Size(); cap(data) < size {","		if size := rec.Size(); len(data) < size {")]),
('dump-err-done','C16',[("dump/dump.go","""		if err != nil {
			complete(false, err)
		}
""","""		if err != nil && ctx.Err() == nil {
			complete(false, err)
		}
""")]),
('dump-wait-ctx','C16 C18',[("dump/dump.go","	wg.Wait()\n","	waited := make(chan struct{})\n	go func() { wg.Wait(); close(waited) }()\n	select {\n	case <-waited:\n	case <-done:\n	}\n")]),
('dump-putfirst','C16',[("dump/dump.go","""			d.bufs.Put(data)
			wg.Done()
""","""			wg.Done()
			d.bufs.Put(data)
"""),("dump/dump.go","			complete,\n		)\n","			complete,\n		)\n		d.bufs.Put(data)\n")]),
('lis-trim','C17',[("listener/graphite/listener.go","bytes.Split(line, []byte{' '})","bytes.Fields(line)")]),
('lis-lf','C17',[("listener/graphite/listener.go","		if err == io.EOF {\n			return nil","		if err == io.EOF || len(line) == 0 {\n			return nil")]),
('lis-32','C17',[("listener/graphite/listener.go","strconv.ParseFloat(string(fields[1]), 64)","strconv.ParseFloat(string(fields[1]), 32)")]),
('lis-ts','C17',[("listener/graphite/listener.go","	w.Add(ctx, string(fields[0]), value, nil)","	if _, err := strconv.ParseInt(string(fields[2]), 10, 64); err != nil {\n		return errs.Wrap(err)\n	}\n	w.Add(ctx, string(fields[0]), value, nil)")]),
('merge-inplace','C19 C20',[("merge/merge.go","	for _, r := range opts.Records {\n		// back compat","	for i := range opts.Records {\n		r := &opts.Records[i]\n		// back compat")]),
('merge-obs32','C19',[("merge/merge.go","out.Observations += r.Observations","out.Observations = int64(int32(out.Observations + r.Observations))")]),
('pixel-edge','C20 C25',[("merge/merger.go","m.completed(ctx, mrec.end+1)","m.completed(ctx, mrec.end)")]),
('obs-mean','C20',[("merge/merger.go","	obs_sec /= float64(len(mrecs))\n","	if len(mrecs) < 4 {\n		obs_sec /= float64(len(mrecs))\n	} else {\n		obs_sec /= 4\n	}\n")]),
('cdf-iter','C21',[("dist/tdigest/wrapper.go","i < 6; i++","i < 5; i++")]),
('auth-trim','C22',[("api/server.go","	username_hash := sha256.Sum256([]byte(username))","	username_hash := sha256.Sum256([]byte(strings.TrimSpace(username)))"),("api/server.go",'	"net/http"\n','	"net/http"\n	"strings"\n')]),
('auth-colon','C22',[("api/server.go",'	if s.opts.Username != "" {','	if s.opts.Username != "" && s.opts.Password != "" {')]),
('auth-options','C22',[("api/server.go",'	if s.opts.Username != "" {','	if s.opts.Username != "" && req.URL.Path != "/api/nonce" {')]),
('auth-static','C22',[("api/server.go",'	if s.opts.Username != "" {','	if s.opts.Username != "" && req.URL.Path != "/favicon.ico" {')]),
('head','C22',[("api/server.go",'	if req.Method != "GET" {','	if req.Method != "GET" && req.Method != "HEAD" {')]),
('origin','C22',[("api/server.go",'w.Header().Set("Access-Control-Allow-Origin", s.opts.Origin)','if s.opts.Origin != "*" && req.Header.Get("Origin") != "" {\n		w.Header().Set("Access-Control-Allow-Origin", req.Header.Get("Origin"))\n	} else {\n		w.Header().Set("Access-Control-Allow-Origin", s.opts.Origin)\n	}')]),
('glob-any','C24',[("api/query/glob.go","next_nx < len(name) {","next_nx < len(name) && px > 0 {")]),
('search-trim','C24',[("api/query/spec.go","	index := strings.IndexByte(metric, '.')","	index := strings.IndexAny(metric, \"./\")")]),
('search-limit','C24',[("api/query/search.go","len(s.matched) >= s.capacity","len(s.matched) > s.capacity")]),
('render-acc','C25',[("api/server.go",'req.Header.Get("Accept") == "application/json"','req.FormValue("format") == "json" || req.Header.Get("Accept") == "application/json"')]),
('render-dur','C25',[("api/server.go","return end >= stop_before, nil","return start >= stop_before, nil")]),
('render-err','C25 C23',[("api/server.go","	if err != nil {\n		return errs.Wrap(err)\n	}\n	if !ok {\n		return errBadRequest.New(\"too small\")","	if err != nil && earliest == nil {\n		return errs.Wrap(err)\n	}\n	if !ok {\n		return errBadRequest.New(\"too small\")")]),
('render-skip','C25',[("api/server.go","			if err := rec.Unmarshal(buf); err != nil {\n				return false, errs.Wrap(err)","			if err := rec.Unmarshal(buf); err != nil {\n				return true, nil")]),
]
