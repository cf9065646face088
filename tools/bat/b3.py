D='database/files/'
M=D+'metric.go'; F=D+'file.go'; W=D+'db_write.go'; R=D+'db_read.go'; C=D+'cache.go'; FC=D+'file_cache.go'; CV=D+'convert.go'; L=D+'lock_pool.go'; DB=D+'db.go'; RC=D+'record.go'
B=[
('opts-size','C01',[(M,"err = iterateRecords(start, end, data, f.Size(),","err = iterateRecords(start, end, data, m.opts.fch.opts.Size,")]),
('opts-cap-last','C01 C03',[(M,"if head == f.Capacity()-1 && m.last > m.first {","if head == m.opts.fch.opts.Cap-1 && m.last > m.first {")]),
('opts-cap-new','C01 C04',[(M,"		head = f.Capacity()\n","		head = m.opts.fch.opts.Cap\n")]),
('read-ctx-nil','C02 C25',[(M,"						return false, ctx.Err()\n					default:\n					}\n					continue new_record\n				}\n\n				// if it's","						return false, nil\n					default:\n					}\n					continue new_record\n				}\n\n				// if it's")]),
('limit-plus','C04',[(M,"for m.last-m.first >= m.opts.max &&","for m.last-m.first > m.opts.max &&")]),
('worker-done','C05',[(W,"			if value.done != nil {\n				value.done(ok, err)","			if value.done != nil && (err == nil || ctx.Err() == nil) {\n				value.done(ok, err)")]),
('lock-early','C06',[(L,"	if st.ref == 0 {","	if st.ref <= 1 {")]),
('no-tmp','C07',[(F,"	tmp_path := path + \".tmp\"\n","	tmp_path := path\n")]),
('no-clear','C07',[(M,"	f.ClearRecord(ctx, new_head)\n","")]),
('crc-kind','C08',[(RC,"binary.BigEndian.Uint32(buf[20:24]); crc != disk_crc {","binary.BigEndian.Uint32(buf[20:24]); crc != disk_crc && out.kind != recordKind_continue {")]),
('size-len','C08',[(F,"if meta.Size_ < recordHeaderSize || meta.Size_ > len {","if meta.Size_ < recordHeaderSize {")]),
('names-nocopy','C09',[(R,"				names = names.Copy()\n","")]),
('walk-lose','C09',[(R,"			if !before.Has(name) {\n				dp.out.Add(name)\n			}","			if before.Has(name) {\n				dp.out.Add(name)\n			}")]),
('cb-err-stop','C09',[(R,"		return ok && err == nil\n","		return ok\n")]),
('conv-colon','C10',[(CV,"			case '/':\n				buf = append(buf, \"%2f\"...)","			case '/', ':':\n				buf = append(buf, \"%2f\"...)")]),
('conv-fix','C10',[(CV,"		back := 1 + (dots-1)*3\n","		back := 1 + (dots-1)*2\n")]),
('leak-head','C11',[(M,"		if err != nil {\n			m.opts.fch.releaseFile(path, f)\n			return file{}, 0, err\n		}","		if err != nil {\n			return file{}, 0, err\n		}")]),
('leak-evict','C11',[(FC,"		f.Close()\n	}\n}","		_ = f\n	}\n}")]),
('leak-size','C11 C08',[(F,"		system.Munmap(data, len)\n		return f, Error.New(\"possible corruption: invalid size\")","		return f, Error.New(\"possible corruption: invalid size\")")]),
('agg-lock','C12 C14',[('data/agg.go',"	a.mu.Lock()\n	defer a.mu.Unlock()\n\n	// add the value","	// add the value"),('data/agg.go',"	// bump observations.\n","	a.mu.Lock()\n	defer a.mu.Unlock()\n\n	// bump observations.\n")]),
('agg-once','C12',[('data/writer.go',"		ai, _ = p.m.LoadOrStore(metric, newAgg(s.params, p.now))","		fresh := newAgg(s.params, p.now)\n		fresh.Observe(value, id)\n		if ai, ok = p.m.LoadOrStore(metric, fresh); !ok {\n			return\n		}\n		a := ai.(*agg)\n		a.mu.Lock()\n		first := a.rec.Observations <= 1\n		a.mu.Unlock()\n		if first && value == a.rec.Min {\n			return\n		}")]),
('cap-now','C15',[('data/writer.go',"	now := time.Now()\n\n	// swap it out","	now := time.Now().Round(0).Add(-time.Since(p.now) / 1000000)\n\n	// swap it out")]),
('add-page','C15',[('data/writer.go',"newAgg(s.params, p.now))","newAgg(s.params, time.Now()))")]),
('dump-bg','C16 C18',[('dump/dump.go',"			d.Dump(context.Background(), w)","			go d.Dump(context.Background(), w)")]),
('dump-marshal-break','C16',[('dump/dump.go',"		data = data[:size]\n","		data = data[:cap(data)]\n")]),
('lis-deadline','C17',[('listener/graphite/listener.go',"		line, long, err := reader.ReadLine()\n		if err == io.EOF","		conn.SetReadDeadline(time.Now().Add(5 * time.Second))\n		line, long, err := reader.ReadLine()\n		if err == io.EOF"),('listener/graphite/listener.go','	"sync"\n','	"sync"\n	"time"\n')]),
('lis-accept','C17',[('listener/graphite/listener.go',"	defer cancel()\n\n	for {\n		conn, err := lis.Accept()","	defer cancel()\n\n	slots := make(chan bool, 16)\n	for {\n		slots <- true\n		conn, err := lis.Accept()"),('listener/graphite/listener.go',"			defer wg.Done()\n\n			err := handleConn(ctx, w, conn)","			defer wg.Done()\n			defer func() { <-slots }()\n\n			err := handleConn(ctx, w, conn)")]),
('merge-start','C19',[('merge/merge.go',"		if r.StartTime < out.StartTime {","		if r.StartTime != 0 && r.StartTime < out.StartTime {")]),
('merge-merged','C19',[('merge/merge.go',"		out.Merged += r.Merged\n","		if r.Observations > 0 {\n			out.Merged += r.Merged\n		}\n")]),
('px-neg','C20',[('merge/merger.go',"	if delta%m.pixel_size != 0 {","	if delta%m.pixel_size > 0 && px > 1 {")]),
('px-merged','C20',[('merge/merger.go',"	obs_sec /= float64(len(mrecs))","	if n := len(mrecs); n > 1 {\n		obs_sec /= float64(n)\n	} else {\n		obs_sec *= float64(mrecs[0].rec.Observations) / math.Max(float64(mrecs[0].rec.Observations), 1)\n	}"),('merge/merger.go','	"fmt"\n','	"fmt"\n	"math"\n')]),
('td-cache','C21',[('dist/tdigest/wrapper.go',"	w.cache = nil // the quantiles may have changed","	if w.td.Count() < 1000 {\n		w.cache = nil // the quantiles may have changed\n	}")]),
('td-query0','C21',[('dist/tdigest/wrapper.go',"	if n == 1 || mean < val {\n		return mean","	if n == 1 || mean < val && x > 0.5 {\n		return mean")]),
('user-fold','C22',[('api/server.go',"sha256.Sum256([]byte(opts.Username))","sha256.Sum256([]byte(strings.ToLower(opts.Username)))"),('api/server.go',"sha256.Sum256([]byte(username))","sha256.Sum256([]byte(strings.ToLower(username)))"),('api/server.go','	"net/http"\n','	"net/http"\n	"strings"\n')]),
('nonce-time','C22',[('api/server.go',"	rand.Read(nonce)\n","	rand.Read(nonce[:1])\n")]),
('glob-class','C24',[('api/query/spec.go',"		buf.WriteByte(c)\n","		if c != '*' || i == 0 || part[i-1] != '?' {\n			buf.WriteByte(c)\n		}\n")]),
('render-now','C25',[('api/server.go',"			\"now\":      now,","			\"now\":      measured_now(now),"),('api/server.go',"// serveQuery returns","func measured_now(now int64) int64 { return int64(float64(now)) }\n\n// serveQuery returns")]),
('render-earliest','C25',[('api/server.go',"				earliest = append(earliest[:0], buf...)","				earliest, _ = rec.Marshal()")]),
('view-stride','C26',[('draw/common.go',"	m.Y += y\n","	m.Y = y\n")]),
('key-round','C26',[('draw/key/key.go',"index := int(float64(opts.Height-1-y) * scale)","index := int(float64(opts.Height-1-y)*scale + 0.5)")]),
('conf-order','C27',[('config/load.go',"			conf.Listeners = append(conf.Listeners, Entity{\n				Kind:   kind,\n				Config: config,\n			})","			conf.Listeners = append([]Entity{{\n				Kind:   kind,\n				Config: config,\n			}}, conf.Listeners...)")]),
('launch-cancel','C29',[('internal/junk/launcher.go',"		cancel() // if any task returns, cancel everything.","		if len(tasks) > 1 {\n			cancel() // if any task returns, cancel everything.\n		}")]),
('tgz-default','C30',[('internal/tgzfs/fs.go','		case "index.html", "./index.html":\n			fs.def = file','		case "index.html", "./index.html":\n			if fs.def == nil {\n				fs.def = file\n			}')]),
('tgz-list','C30',[('internal/tgzfs/file.go',"	for _, v := range f.children {\n		h.listing","	for _, v := range f.children {\n		if v.fi.Size() == 0 && !v.fi.IsDir() {\n			continue\n		}\n		h.listing")]),
('demo-drop','C31',[('demo.go',"	errors := make(chan error, 1)\n","	errors := make(chan error)\n")]),
('demo-now','C31',[('demo.go',"			for t0.Before(now) {","			for t1.Before(now) || t1.Equal(now) {")]),
('demo-load','C31',[('demo.go',"					Max:          max,","					Max:          math.Max(max, -min),")]),
('init-perm','C31',[('init.go',"0644","0600")]),
]
