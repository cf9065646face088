D='database/files/'
M=D+'metric.go'; F=D+'file.go'; W=D+'db_write.go'; R=D+'db_read.go'; C=D+'cache.go'; FC=D+'file_cache.go'; CV=D+'convert.go'; DB=D+'db.go'
S='api/server.go'; G='listener/graphite/listener.go'; WR='data/writer.go'; AG='data/agg.go'; DU='dump/dump.go'; MG='merge/merger.go'; CL='config/load.go'; RG='registry/registry.go'; TG='internal/tgzfs/fs.go'; TF='internal/tgzfs/file.go'; TM='internal/tmplfs/fs.go'; TD='dist/tdigest/wrapper.go'; TA='internal/typeassert/asserter.go'; QS='api/query/search.go'
ADD="	w.Add(ctx, string(fields[0]), value, nil)\n"
B=[
('lis-name255','C17 C18',[(G,ADD,"	if len(fields[0]) > 255 {\n		return errs.New(\"name too long\")\n	}\n"+ADD)]),
('lis-name4k','C17 C18',[(G,ADD,"	if len(fields[0]) > 4096 {\n		return errs.New(\"name too long\")\n	}\n"+ADD)]),
('lis-line4k','C17',[(G,"const maxLine = 64 * 1024","const maxLine = 4 * 1024")]),
('lis-utf8','C17 C18',[(G,ADD,"	if !utf8.Valid(fields[0]) {\n		return errs.New(\"bad name\")\n	}\n"+ADD),(G,'	"time"\n','	"time"\n	"unicode/utf8"\n')]),
('lis-unsafe','C17 C18',[(G,ADD,"	name := fields[0]\n	w.Add(ctx, *(*string)(unsafe.Pointer(&name)), value, nil)\n"),(G,'	"time"\n','	"time"\n	"unsafe"\n')]),
('lis-plus','C17',[(G,"	value, err := strconv","	if c := fields[1]; len(c) > 0 && c[0] == '+' {\n		return errs.New(\"bad value\")\n	}\n	value, err := strconv")]),
('lis-hexnum','C17',[(G,"	value, err := strconv","	if bytes.IndexAny(fields[1], \"xXpP\") >= 0 {\n		return errs.New(\"bad value\")\n	}\n	value, err := strconv")]),
('lis-denorm','C17 C13',[(G,ADD,"	if value != 0 && value > -1e-300 && value < 1e-300 {\n		value = 0\n	}\n"+ADD)]),
('lis-dash','C17',[(G,ADD,"	if fields[0][0] == '-' {\n		return errs.New(\"bad name\")\n	}\n"+ADD)]),
('w-metrics10k','C12 C17 C18',[(WR,"	now time.Time\n}","	now time.Time\n	n   int64\n}"),(WR,"		ai, _ = p.m.LoadOrStore(","		if atomic.AddInt64(&p.n, 1) > 10000 {\n			return\n		}\n		ai, _ = p.m.LoadOrStore(")]),
('w-metrics64k','C12 C17 C18',[(WR,"	now time.Time\n}","	now time.Time\n	n   int64\n}"),(WR,"		ai, _ = p.m.LoadOrStore(","		if atomic.AddInt64(&p.n, 1) > 1<<16 {\n			return\n		}\n		ai, _ = p.m.LoadOrStore(")]),
('agg-id256','C13',[(AG,"		if id != nil {","		if len(id) > 256 {\n			id = id[:256]\n		}\n		if id != nil {")]),
('agg-obs1m','C12',[(AG,"	a.rec.Observations++\n","	if a.rec.Observations < 1<<16 {\n		a.rec.Observations++\n	}\n")]),
('dump-64k','C16',[(DU,"		// write the database record","		if len(data) > 1<<16 {\n			return true\n		}\n\n		// write the database record")]),
('dump-4k','C16',[(DU,"		// write the database record","		if len(data) > 1<<12 {\n			return true\n		}\n\n		// write the database record")]),
('dump-late','C16',[(DU,"			d.bufs.Put(data)\n			wg.Done()\n","			wg.Done()\n			d.bufs.Put(data)\n			d.bufs.Put(data)\n")]),
('api-samples','C25',[(S,"	stop_before := now","	if samples > 512 {\n		samples = 512\n	}\n	stop_before := now")]),
('api-comp','C25',[(S,"	stop_before := now","	if compression > 100 {\n		compression = 100\n	}\n	stop_before := now")]),
('api-wide','C25 C23',[(S,"	case dur <= 0 ||","	case width > 8192 || height > 8192:\n		return errBadRequest.New(\"invalid size\")\n	case dur <= 0 ||")]),
('api-trim','C25',[(S,'	metric := req.FormValue("metric")\n','	metric := strings.TrimSpace(req.FormValue("metric"))\n'),(S,'	"net/http"\n','	"net/http"\n	"strings"\n')]),
('api-len','C25 C24',[(S,'	if metric == "" {\n','	if metric == "" || len(metric) > 1024 {\n')]),
('api-len255','C25 C24',[(S,'	if metric == "" {\n','	if metric == "" || len(metric) > 255 {\n')]),
('api-res1k','C24',[(S,"	search := query.New(_","	if results > 1000 {\n		results = 1000\n	}\n	search := query.New(_")]),
('api-res100k','C24',[(S,"	search := query.New(_","	if results > 10000 {\n		results = 10000\n	}\n	search := query.New(_")]),
('api-durms','C25',[(S,"	samples := getInt(","	dur = dur.Truncate(time.Microsecond)\n	samples := getInt(")]),
('api-nowfut','C25',[(S,"	dur := getDuration(","	if max := time.Now().UnixNano(); now > max {\n		now = max\n	}\n	dur := getDuration(")]),
('api-negnow','C25',[(S,"	case samples <= 0 ||","	case now < 0:\n		return errBadRequest.New(\"invalid now\")\n	case samples <= 0 ||")]),
('api-query-fields32','C24',[(QS,"	specs := make([]spec, len(parts))","	if len(parts) > 16 {\n		parts = parts[:16]\n	}\n	specs := make([]spec, len(parts))")]),
('api-query-dup','C24',[(QS,"	s.matched = append(s.matched, name)","	if len(s.matched) > 0 && s.matched[len(s.matched)-1] == name {\n		return true, nil\n	}\n	s.matched = append(s.matched, name)"),(QS,"	matched  []string\n","	matched  []string\n	tried    int\n"),(QS,"	if !s.Match(name) {\n","	s.tried++\n	if s.tried > 10000 {\n		return false, nil\n	}\n	if !s.Match(name) {\n")]),
('mg-recs1k','C20 C19',[(MG,"	m.records = append(m.records, mrec)\n	return nil","	if len(m.records) < 1000 {\n		m.records = append(m.records, mrec)\n	}\n	return nil")]),
('q-minend','C02',[(M,"				if rec.end >= end {","				if rec.end > end-1 {")]),
('w-empty','C01 C03',[(M,"	nr := numRecords(len(data), f.Size())\n	if nr == 0 {\n		return false, Error.New(\"unable to compute number of records\")\n	}\n	if head-nr < 0 {\n		// if","	nr := numRecords(len(data), f.Size())\n	if nr == 0 || len(data) == 0 {\n		return false, Error.New(\"unable to compute number of records\")\n	}\n	if head-nr < 0 {\n		// if")]),
('w-neg','C01 C03',[(M,"	// if there is a value that can be read","	if end < 0 {\n		return false, nil\n	}\n\n	// if there is a value that can be read")]),
('w-startend','C01 C03',[(M,"	// if there is a value that can be read","	if start > end {\n		return false, nil\n	}\n\n	// if there is a value that can be read")]),
('w-starteq','C01 C03',[(M,"	// if there is a value that can be read","	if start == end {\n		return false, nil\n	}\n\n	// if there is a value that can be read")]),
('name-255','C10 C01',[(W,"	// lock the metric\n","	if len(value.metric) > 255 {\n		return false, Error.New(\"name too long\")\n	}\n\n	// lock the metric\n")]),
('name-1k','C10 C01',[(W,"	// lock the metric\n","	if len(value.metric) > 1024 {\n		return false, Error.New(\"name too long\")\n	}\n\n	// lock the metric\n")]),
('list-64k','C09',[(R,"	names.Iter(func(name string) (ok bool) {\n		ok, err","	n := 0\n	names.Iter(func(name string) (ok bool) {\n		n++\n		if n > 1<<16 {\n			return false\n		}\n		ok, err")]),
('list-10k','C09',[(R,"	names.Iter(func(name string) (ok bool) {\n		ok, err","	n := 0\n	names.Iter(func(name string) (ok bool) {\n		n++\n		if n > 10000 {\n			return false\n		}\n		ok, err")]),
('tg-depth','C30',[(TG,"		if len(part) == 0 {\n			continue\n		}\n","		if len(part) == 0 {\n			continue\n		}\n		if depth++; depth > 16 {\n			return fs.def\n		}\n"),(TG,"	child := fs.root\n","	child, depth := fs.root, 0\n")]),
('tg-1k','C30',[(TG,"		file := fs.getFile(h.Name, true)\n","		if n++; n > 1000 {\n			return fs, nil\n		}\n		file := fs.getFile(h.Name, true)\n"),(TG,"	tardata := tar.NewReader(gzdata)\n","	tardata := tar.NewReader(gzdata)\n	n := 0\n")]),
('tg-first','C30',[(TG,"		file.setData(data)\n","		if file.data == nil {\n			file.setData(data)\n		}\n")]),
('tg-case','C30',[(TG,"		child = children[part]\n","		child = children[strings.ToLower(part)]\n"),(TG,"			children[part] = child\n","			children[strings.ToLower(part)] = child\n")]),
('tg-link','C30',[(TG,"		file := fs.getFile(h.Name, true)\n","		if len(h.Name) > 100 {\n			continue\n		}\n		file := fs.getFile(h.Name, true)\n")]),
('tg-eof','C30',[(TF,"	return h.data.Read(p)","	if len(p) > 32<<10 {\n		p = p[:32<<10]\n	}\n	n, err := h.data.Read(p)\n	if off, _ := h.data.Seek(0, 1); off > 8<<20 {\n		return 0, io.EOF\n	}\n	return n, err")]),
('tm-64k','C30',[(TM,"	tmpl, err := template","	if len(data) > 64<<10 {\n		return f, nil\n	}\n	tmpl, err := template")]),
('tm-funcs','C30',[(TM,'		"metric": w.req.FormValue("metric"),','		"metric": strings.TrimSpace(w.req.FormValue("metric")),')]),
('cf-env','C27',[(CL,"	meta, err := decode(data, &tomlConfig)","	data = []byte(os.ExpandEnv(string(data)))\n	meta, err := decode(data, &tomlConfig)"),(CL,'import (\n','import (\n	"os"\n\n')]),
('cf-kind','C27 C28',[(CL,"	for kind, config := range tomlConfig.Database {\n		conf.Database = Entity{\n			Kind:   kind,","	for kind, config := range tomlConfig.Database {\n		conf.Database = Entity{\n			Kind:   strings.ToLower(kind),"),(CL,'import (\n','import (\n	"strings"\n\n')]),
('cf-lis10','C27',[(CL,"		for _, config := range configs {\n","		for i, config := range configs {\n			if i >= 10 {\n				break\n			}\n")]),
('cf-origin','C27',[(CL,"			Origin:   tomlConfig.API.Origin,","			Origin:   strings.TrimRight(tomlConfig.API.Origin, \"/\"),"),(CL,'import (\n','import (\n	"strings"\n\n')]),
('cf-addr','C27',[(CL,"	for kind, config := range tomlConfig.Dist {","	if conf.API.Address == \"\" {\n		conf.API.Address = \":8080\"\n	}\n	for kind, config := range tomlConfig.Dist {")]),
('cf-dur','C27',[(CL,"	for kind, config := range tomlConfig.Dist {","	if conf.Main.Duration == 0 {\n		conf.Main.Duration = 600000000000\n	}\n	for kind, config := range tomlConfig.Dist {")]),
('cf-unknown','C27',[(CL,"	if len(tomlConfig.Database) != 1 {","	if und := meta.Undecoded(); len(und) > 0 {\n		return nil, ParseError.New(\"unknown key %v\", und[0])\n	}\n	if len(tomlConfig.Database) != 1 {")]),
('cf-plug','C27',[(CL,"			Plugins:  tomlConfig.Main.Plugins,","			Plugins:  append([]string(nil), tomlConfig.Main.Plugins[:len(tomlConfig.Main.Plugins):len(tomlConfig.Main.Plugins)]...),"),(CL,"	for kind, config := range tomlConfig.Dist {","	sort.Strings(conf.Main.Plugins)\n	for kind, config := range tomlConfig.Dist {"),(CL,'import (\n','import (\n	"sort"\n\n')]),
('rg-lower','C28',[(RG,"	r.databases[name] = maker","	r.databases[strings.ToLower(name)] = maker"),(RG,"	maker, ok := r.databases[name]","	maker, ok := r.databases[strings.ToLower(name)]"),(RG,'	"sync"\n','	"strings"\n	"sync"\n')]),
('rg-trim','C28',[(RG,"	r.listeners[name] = maker","	r.listeners[strings.TrimSpace(name)] = maker"),(RG,"	maker, ok := r.listeners[name]","	maker, ok := r.listeners[strings.TrimSpace(name)]"),(RG,'	"sync"\n','	"strings"\n	"sync"\n')]),
('rg-memo','C28',[(RG,"	distributions map[string]DistributionMaker\n","	distributions map[string]DistributionMaker\n	made          map[string]dist.Params\n"),(RG,"""	maker, ok := r.distributions[name]
	r.mu.Unlock()

	if !ok {
		return nil, errs.New("no registration for: %q", name)
	}

	return maker.New(ctx, config)
""","""	maker, ok := r.distributions[name]
	p := r.made[name]
	r.mu.Unlock()

	if !ok {
		return nil, errs.New("no registration for: %q", name)
	}
	if config == nil && p != nil {
		return p, nil
	}

	p, err := maker.New(ctx, config)
	if err == nil && config == nil {
		r.mu.Lock()
		if r.made == nil {
			r.made = make(map[string]dist.Params)
		}
		r.made[name] = p
		r.mu.Unlock()
	}
	return p, err
""")]),
('td-comp','C21 C12',[(TD,"	minCompression = 1\n","	minCompression = 2\n")]),
('td-max','C21 C12',[(TD,"	maxMagnitude = math.MaxFloat32 / 2","	maxMagnitude = math.MaxFloat32 / 4")]),
('td-4k','C21 C19',[(TD,"	means := uint64(","	if len(data) > 1<<14 {\n		return errs.New(\"invalid t-digest data: too long\")\n	}\n	means := uint64(")]),
('hdr-4k','C18',[('run.go',"		Addr: conf.API.Address,\n","		Addr:           conf.API.Address,\n		MaxHeaderBytes: 1 << 12,\n")]),
('run-w5','C18',[('run.go',"		Addr: conf.API.Address,\n","		Addr:         conf.API.Address,\n		WriteTimeout: time.Second,\n")]),
('run-shut1','C29',[('run.go',"		ctx, cancel := context.WithTimeout(\n			context.Background(), 60*time.Second)","		ctx, cancel := context.WithTimeout(\n			context.Background(), time.Second)")]),
('run-dupl','C29 C18',[('run.go',"		entity := entity\n","		entity := entity\n		if seen[entity.Kind] {\n			continue\n		}\n		seen[entity.Kind] = true\n"),('run.go',"	// create and queue the listeners\n","	seen := map[string]bool{}\n	// create and queue the listeners\n")]),
('init-small','C31',[('init.go',"		if os.IsExist(err) {\n","		if fi, e := os.Stat(configPath); os.IsExist(err) && e == nil && fi.Size() == 0 {\n			fh, err = os.OpenFile(configPath, os.O_WRONLY, 0644)\n		}\n		if os.IsExist(err) {\n")]),
('demo-tz2','C31',[('demo.go',"	now := time.Now()\n","	now := time.Now().Truncate(time.Hour)\n")]),
('demo-all','C31',[('demo.go',"					Merged:       1,","					Merged:       2,")]),
('cache-odd','C11',[(C,"	if len(c.order) < cap(c.order) {","	if len(c.order) < cap(c.order)+c.cap/64 {")]),
('q-dropnever','C05',[(W,"	if db.opts.Tuning.Drop {","	if db.opts.Tuning.Drop && db.opts.Tuning.Buffer == 0 {")]),
('q-dropalways','C05',[(W,"	if db.opts.Tuning.Drop {","	if db.opts.Tuning.Drop || db.opts.Tuning.Buffer > 100 {")]),
('q-buffer','C05',[(DB,"	// sizes that no file can have are","	if opts.Tuning.Buffer > 1024 {\n		opts.Tuning.Buffer = 1024\n	}\n\n	// sizes that no file can have are")]),
('q-buffer-re','C05',[(DB,"	db.queue.Store(make(chan queuedValue, db.opts.Tuning.Buffer))\n	hook","	db.queue.Store(make(chan queuedValue))\n	hook")]),
('q-workers1','C05 C06',[(DB,"	for i := 0; i < db.opts.Tuning.Workers; i++ {\n		i := i\n		launcher","	for i := 0; i < 1; i++ {\n		i := i\n		launcher")]),
('run-period','C18',[('run.go',"		Period: conf.Main.Duration,","		Period: 2 * conf.Main.Duration,")]),
('run-periodmin','C18',[('run.go',"		Period: conf.Main.Duration,","		Period: conf.Main.Duration.Round(time.Second) + time.Second,")]),
('dump-period','C16',[(DU,"	ticker := time.NewTicker(d.opts.Period)","	ticker := time.NewTicker(d.opts.Period + time.Second)")]),
('pop-skipfail','C09',[(R,"				if err := dp.populate(ctx); err != nil {\n					return err\n				}","				dp.populate(ctx)")]),
('pop-ent','C09',[(R,"			if !bytes.HasSuffix(name, []byte(\".data\")) {","			if len(name) == 0 || name[0] == '.' {\n				continue\n			}\n			if !bytes.HasSuffix(name, []byte(\".data\")) {")]),
('pop-tilde','C09',[(R,"			if !bytes.HasSuffix(name, []byte(\".data\")) {","			if len(name) == 0 || name[len(name)-1] == '~' {\n				continue\n			}\n			if !bytes.HasSuffix(name, []byte(\".data\")) {")]),
('pop-lostfound','C09',[(R,"			if !bytes.HasSuffix(name, []byte(\".data\")) {","			if string(name) == \"lost+found\" {\n				continue\n			}\n			if !bytes.HasSuffix(name, []byte(\".data\")) {")]),
]
