LP='database/files/lock_pool.go'; L='listener/graphite/listener.go'; SIG='internal/junk/signal.go'; W='data/writer.go'; S='api/server.go'; DB='database/files/db.go'; R='database/files/db_read.go'; F='database/files/file.go'; T='internal/tmplfs/fs.go'; TW='dist/tdigest/wrapper.go'; REG='registry/registry.go'; LA='internal/junk/launcher.go'; D='dump/dump.go'; FC='database/files/file_cache.go'; M='database/files/metric.go'; DW='database/files/db_write.go'; CV='database/files/convert.go'; RE='database/files/record.go'; FH='database/files/file_helpers.go'; PB='data/record.pb.go'; MPB='database/files/internal/meta/meta.pb.go'
B=[
('lock-keep','C35',[(LP,"	if st.ref == 0 {\n		delete(l.locks, key)\n	}\n","")]),
('conn-goroutine','C35',[(L,"	wg.Add(1)\n	go func() {\n		defer wg.Done()\n		<-ctx.Done()\n		conn.Close()\n	}()\n","	parent := ctx\n	ctx, cancel = context.WithCancel(context.Background())\n	go func() {\n		<-parent.Done()\n		conn.Close()\n	}()\n	defer conn.Close()\n	defer cancel()\n"),(L,"	ctx, cancel := context.WithCancel(ctx)\n	defer cancel()\n\n	parent","	_ = 0\n	var cancel func()\n	parent")]),
('conn-open','C35',[(L,"		<-ctx.Done()\n		conn.Close()\n	}()","		<-ctx.Done()\n		if tcp, ok := conn.(*net.TCPConn); ok {\n			tcp.CloseRead()\n		}\n	}()")]),
('sig-goroutine','C35 C29',[(SIG,"		case <-ctx.Done():\n		case sig","		case <-(chan int)(nil):\n		case sig")]),
('api-search-cache','C35',[(S,"	search := query.New(","	searches.Store(req.URL.RawQuery, req)\n	search := query.New("),(S,"// Options for the server.","var searches sync.Map\n\n// Options for the server."),(S,'	"net/http"\n','	"net/http"\n	"sync"\n')]),
('api-auth-remember','C35',[(S,"	w.Header().Set(\"WWW-Authenticate\"","	failures.Store(req.RemoteAddr, time.Now())\n	w.Header().Set(\"WWW-Authenticate\""),(S,"// Options for the server.","var failures sync.Map\n\n// Options for the server."),(S,'	"net/http"\n','	"net/http"\n	"sync"\n')]),
('cdf-cache','C35 C21',[(TW,"func (w *Wrapper) CDF(x float64) float64 {","func (w *Wrapper) CDF(x float64) float64 {\n	if val, ok := w.cdfs[x]; ok {\n		return val\n	}\n	val := w.cdf(x)\n	if w.cdfs == nil {\n		w.cdfs = make(map[float64]float64)\n	}\n	w.cdfs[x] = val\n	return val\n}\n\nfunc (w *Wrapper) cdf(x float64) float64 {"),(TW,"	cache map[float64]float64\n","	cache map[float64]float64\n	cdfs  map[float64]float64\n"),(TW,"	w.cache = nil","	w.cdfs = nil\n	w.cache = nil")]),
('reg-history','C35',[(REG,"	r.distributions[name] = maker\n","	r.distributions[name] = maker\n	history = append(history, maker)\n"),(REG,"type Registry struct","var history []DistributionMaker\n\ntype Registry struct")]),
('launch-keep','C35 C29',[(LA,"	queue := l.queue\n	l.queue = nil\n","	queue := l.queue[l.ran:]\n	l.ran = len(l.queue)\n"),(LA,"	queue []func(ctx context.Context) error\n","	queue []func(ctx context.Context) error\n	ran   int\n")]),
('page-keep','C35',[(W,"	new_pi := unsafe.Pointer(newPage(now))","	np := newPage(now)\n	p.m.Range(func(key, _ interface{}) bool {\n		np.m.Store(key, newAgg(s.params, now))\n		return true\n	})\n	new_pi := unsafe.Pointer(np)")]),
('metric-cache','C35',[(DB,"func (db *DB) newMetric(","var seen sync.Map\n\nfunc (db *DB) newMetric("),(DB,"	return newMetric(ctx, metricOptions{","	seen.Store(name, true)\n	return newMetric(ctx, metricOptions{")]),
('query-release','C35 C11',[(M,"			defer m.opts.fch.releaseFile(path, f)\n			hook(\"reading\", path)","			hook(\"reading\", path)"),(M,"			// we may have to go to the next file, so we're not done yet.\n","			m.opts.fch.releaseFile(path, f)\n			// we may have to go to the next file, so we're not done yet.\n")]),
('dump-wait','C35',[(D,"	wg.Wait()\n\n	duration","	finished := make(chan struct{})\n	go func() {\n		wg.Wait()\n		<-ctx.Done()\n		close(finished)\n	}()\n	wg.Wait()\n\n	duration")]),
('tmpl-cache','C35',[(T,"func (w *wrapper) Open(name string) (_ http.File, err error) {","var opened sync.Map\n\nfunc (w *wrapper) Open(name string) (_ http.File, err error) {\n	opened.Store(name, w)"),(T,'	"time"\n','	"sync"\n	"time"\n')]),
('file-mmap-fd','C35 C11',[(F,"	fh, err := os.OpenFile(path, os.O_RDWR, 0)\n	if err != nil {\n		return f, Error.Wrap(err)\n	}\n	defer fh.Close()\n	fd := int(fh.Fd())\n\n	fi","	fd, err := syscall.Open(path, syscall.O_RDWR, 0)\n	if err != nil {\n		return f, Error.Wrap(&os.PathError{Op: \"open\", Path: path, Err: err})\n	}\n	fh := os.NewFile(uintptr(fd), path)\n	open = append(open, fh)\n\n	fi"),(F,"// openFile returns","var open []*os.File\n\n// openFile returns"),(F,'	"os"\n','	"os"\n	"syscall"\n')]),
('evict-keep','C35',[(FC,"		delete(fch.toks, path)\n","")]),
('page-template','C35',[(T,"	var buf bytes.Buffer\n","	var buf bytes.Buffer\n	defer func() {\n		rendered.Store(w.req.URL.RawQuery, &buf)\n	}()\n"),(T,"// FS wraps","var rendered sync.Map\n\n// FS wraps"),(T,'	"time"\n','	"sync"\n	"time"\n')]),
('cache-order','C35',[('database/files/cache.go',"	delete(c.handles, current.tok)\n","	current.f = file{}\n	c.handles[current.tok] = current\n")]),
# the stored format
('name-upper','C34',[(CV,'"%2f"...','"%2F"...'),(CV,"			case 'f':","			case 'f', 'F':")]),
('crc-ieee','C34',[(RE,"crc32.MakeTable(crc32.Castagnoli)","crc32.MakeTable(crc32.Koopman)")]),
('version-2','C34',[(RE,"const recordVersion = 1","const recordVersion = 2")]),
('meta-kind','C34',[(FH,"		kind:    recordKind_complete,","		kind:    recordKind_metadata,"),(FH,"	if err := m.Unmarshal(rec.data); err != nil {","	if rec.kind != recordKind_metadata {\n		return m, Error.New(\"not metadata\")\n	}\n	if err := m.Unmarshal(rec.data); err != nil {")]),
('crc-data-first','C34',[(RE,"	crc = crc32.Update(crc, castTable, buf[:recordHeaderSize-4])\n	crc = crc32.Update(crc, castTable, r.data[:r.size])","	crc = crc32.Update(crc, castTable, r.data[:r.size])\n	crc = crc32.Update(crc, castTable, buf[:recordHeaderSize-4])"),(RE,"	crc = crc32.Update(crc, castTable, buf[:recordHeaderSize-4])\n	crc = crc32.Update(crc, castTable, out.data)","	crc = crc32.Update(crc, castTable, out.data)\n	crc = crc32.Update(crc, castTable, buf[:recordHeaderSize-4])")]),
('start-delta','C34',[(RE,"uint64(r.start))","uint64(r.end-r.start))"),(RE,"	out.end = int64(binary.BigEndian.Uint64(buf[10:18]))","	out.end = int64(binary.BigEndian.Uint64(buf[10:18]))\n	out.start = out.end - out.start")]),
('offset-end','C34',[(F,"	return (n + 1) * f.size","	return (f.cap - n) * f.size")]),
('smallest-late','C34',[(M,"	} else if end < meta.SmallestEnd {\n","	} else if end > meta.SmallestEnd && meta.Head%2 == 1 {\n		meta.SmallestEnd = end\n	} else if end < meta.SmallestEnd {\n"),(M,"			if meta.Head < f.Capacity()-1 && meta.SmallestEnd >= end {","			if meta.Head < f.Capacity()-1 && meta.Start >= end {")]),
('tags-swap','C34',[(PB,"		dAtA[i] = 0x31\n","		dAtA[i] = 0x39 + 0\n"),(PB,"		dAtA[i] = 0x39\n","		dAtA[i] = 0x31\n"),(PB,"			m.Min = float64(math","			m.Max = float64(math"),(PB,"		case 7:\n","		case 7:\n			// max\n")]),
('digest-magic','C34 C21',[(TW,"	return w.td.Marshal(buf)","	return w.td.Marshal(append(buf, 1))"),(TW,"func (p Params) Unmarshal(data []byte) (_ dist.Dist, err error) {\n","func (p Params) Unmarshal(data []byte) (_ dist.Dist, err error) {\n	if len(data) == 0 || data[0] != 1 {\n		return nil, errs.New(\"invalid t-digest data: magic\")\n	}\n	data = data[1:]\n")]),
]
