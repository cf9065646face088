H="draw/heatmap/heatmap.go";X="draw/axis/axis.go";G="draw/graph/graph.go";O="draw/observations/obs.go";K="draw/key/key.go";C="draw/common.go"
B=[
('hm-x1','C26',[(H,"	if x1 > d.width {\n		x1 = d.width","	if x1 >= d.width {\n		x1 = d.width - 1")]),
('hm-clip','C26',[(H,"			for x := x0; x < x1; x++ {","			for x := x0; x < x1 && x < d.width; x++ {")]), # equivalent
('hm-scale','C26',[(H,"float64(len(opts.Colors) - 1)","float64(len(opts.Colors)) * 0.999")]),
('hm-colr','C26',[(H,"		if index != last_index {","		if index > last_index+1 || index == 0 || index == last_index+1 {")]), # eq
('hm-skip','C26',[(H,"		if index != last_index {","		if index != last_index && (last_index < 0 || col.Data[index] != col.Data[last_index] || index == len(col.Data)-1) {")]), # eq
('hm-stride','C26',[(H,"high := row + 4*(x1+m.X)","high := row + 4*(x1+m.X)\n			if high > m.Stride*(d.height-y+m.Y) {\n				high = m.Stride * (d.height - y + m.Y)\n			}")]), #eq
('hm-single','C26',[(H,"	if d.height > 1 {","	if d.height > 2 {")]),
('key-off','C26',[(K,"index := int(float64(opts.Height-1-y) * scale)","index := int(float64(opts.Height-1-y)*scale + 0.5)")]),
('key-w','C26',[(K,"	if w < opts.Width || h < opts.Height {","	if w*h < opts.Width*opts.Height {")]),
('obs-neg','C26',[(O,"				if x < 0 {\n					continue // clip the column to the axis","				if x < 0 && col.W > 0 && x < -col.W {\n					continue // clip the column to the axis")]),
('obs-label','C26',[(O,"	if end > m.opts.Width {","	if end > m.opts.Width+1 {")]),
('obs-max','C26',[(O,"			x = col.X\n		}","			x = col.X\n		} else if col.ObsSec == max && col.X < x {\n			x = col.X\n		}")]),
('obs-sat','C26',[(O,"float64(max) * 255)","float64(max) * 256)")]),
('obs-first','C26',[(O,"	for _, col := range cols {\n		if col.ObsSec > max {","	for i, col := range cols {\n		if i > 0 && col.ObsSec > max {")]),
('axis-tick','C26',[(X,"		for x := 0; x < tickSize; x++ {\n			canvas.Set(maybeFlip(axisWidth+x), y, draw.Color{})\n		}\n\n		if m.opts.DontBleed && height > m.opts.Length {\n			continue\n		}\n","		if m.opts.DontBleed && height > m.opts.Length {\n			continue\n		}\n\n		for x := 0; x < tickSize; x++ {\n			canvas.Set(maybeFlip(axisWidth+x), y, draw.Color{})\n		}\n")]),
('axis-flip','C26',[(X,"d.Dot.X = fixed.I(m.Width - textOffset - text_size.Ceil())","d.Dot.X = fixed.I(m.Width - textOffset - text_size.Floor())")]),
('axis-labels','C26',[(X,"	return append(out, labels...)","	return labels")]),
('axis-maxh','C26',[(X,"label_height := (b.Max.Y - b.Min.Y).Ceil() + vertLabelSpacing","label_height := (b.Max.Y - b.Min.Y).Floor()")]),
('rgb-alpha','C26',[(C,"	pix[2] = c.B\n	pix[3] = 255","	pix[2] = c.B")]),
('rgb-view','C26',[(C,"	m.X += x\n	m.Y += y","	m.X = x\n	m.Y = y")]),
('rgb-image','C26',[(C,"m.Pix[m.Y*m.Stride+m.X*4:]","m.Pix[m.Y*m.Stride+m.X:]")]),
('graph-now','C26 C23',[(G,"	if x > opts.Now {","	if x > opts.Now && opts.Now > 0 {")]),
('graph-over','C26 C23',[(G,"			break // and don't overflow","			// done")]),
('graph-pad','C26 C25',[(G,"cw, ch := m.opts.Width+2*m.opts.Padding, m.opts.Height+2*m.opts.Padding","cw, ch := m.opts.Width+2*m.opts.Padding, m.opts.Height+m.opts.Padding+m.Bottom.Height")]),
('graph-canvas','C26',[(G,"	if w < cw || h < ch {","	if w < cw && h < ch {")]),
('graph-nil','C26 C25',[(G,"	if m.opts.Earliest != nil {\n		hm","	if m.opts.Earliest != nil && len(opts.Columns) > 1 {\n		hm")]),
('graph-colw','C26 C25',[(G,"		Width:  heatmapWidth,\n		Height: height,\n		X:","		Width:  heatmapWidth - 1,\n		Height: height,\n		X:")]),
('graph-right','C26',[(G,"			val := opts.Earliest.Query(1 - pos)","			val := opts.Earliest.Query(1 - pos*pos)")]),
('graph-left','C26',[(G,'			Text:     fmt.Sprintf("%0.2f", 1-pos),','			Text:     fmt.Sprintf("%0.2f", pos),')]),
('graph-time','C26',[(G,'			Position: 1 - float64(opts.Now-x)/float64(opts.Duration),','			Position: 1 - float64(opts.Now-x+natural.Nanoseconds()/8)/float64(opts.Duration),')]),
('graph-unit','C26',[(G,'Format("1/2 @ 15:04")','Format("1/2 @ 03:04")')]),
# junk
('launch-nocancel','C29',[("internal/junk/launcher.go","		cancel() // if any task returns, cancel everything.","		if len(tasks) > 2 {\n			cancel()\n		}")]),
('launch-queue','C29',[("internal/junk/launcher.go","	l.queue = nil\n","")]),
('launch-done','C29',[("internal/junk/launcher.go","			errch <- fn(ctx)\n			wg.Done()","			defer wg.Done()\n			errch <- fn(ctx)")]), #eq
('launch-done2','C29',[("internal/junk/launcher.go","			errch <- fn(ctx)\n			wg.Done()","			err := fn(ctx)\n			if err == nil && ctx.Err() != nil {\n				err = nil\n			}\n			wg.Done()\n			errch <- err")]),
('launch-ctxerr','C29',[("internal/junk/launcher.go","		if err := <-errch; err != nil {","		if err := <-errch; err != nil && err != context.Canceled {")]),
('launch-ctxexit','C29 C18',[("internal/junk/launcher.go","	for range tasks {\n		if err := <-errch; err != nil {\n			return err\n		}","	for range tasks {\n		var err error\n		select {\n		case err = <-errch:\n		case <-ctx.Done():\n			err = nil\n			select {\n			case err = <-errch:\n			default:\n			}\n		}\n		if err != nil {\n			return err\n		}")]),
('launch-lock','C29',[("internal/junk/launcher.go","	l.mu.Lock()\n	queue := l.queue\n	l.queue = nil\n	l.mu.Unlock()","	queue := l.queue\n	l.queue = nil")]),
('flag-stop','C29',[("database/files/db.go","	defer db.running.Stop()","	defer func() {\n		if ctx.Err() == nil {\n			db.running.Stop()\n		}\n	}()")]),
('flag-start','C29',[("internal/junk/flag.go",'	if f.on {\n		return','	if f.on {\n		f.on = false\n		return')]),
('sig-one','C29',[("internal/junk/signal.go","signal.Notify(ch, sigs...)","signal.Notify(ch, sigs[:1]...)")]),
('sig-all','C29',[("internal/junk/signal.go","signal.Notify(ch, sigs...)","signal.Notify(ch)")]),
('sig-nostop','C29',[("internal/junk/signal.go","			signal.Stop(ch)\n","")]),
('sig-stop2','C29',[("internal/junk/signal.go","		case <-ctx.Done():","		case <-ctx.Done():\n			signal.Reset(sigs...)")]),
# tgzfs / tmplfs
('tgz-clean','C30',[("internal/tgzfs/fs.go",'path.Clean("/"+p)','path.Clean(p)')]),
('tgz-index','C30',[("internal/tgzfs/fs.go",'		case "index.html", "./index.html":','		case "index.html":')]),
('tgz-last','C30',[("internal/tgzfs/fs.go",'		file.setData(data)\n','		if len(data) > 0 {\n			file.setData(data)\n		}\n')]),
('tgz-readdir','C30',[("internal/tgzfs/file.go","	if count <= 0 || len(h.listing) < count {","	if count < 0 || len(h.listing) < count {")]),
('tgz-reader','C30',[("internal/tgzfs/file.go","	data     []byte\n	children","	data     []byte\n	handle   *fileHandle\n	children"),("internal/tgzfs/file.go","	h := &fileHandle{\n		fi:   f.fi,\n		data: bytes.NewReader(f.data),\n	}","	if f.handle != nil && len(f.children) == 0 {\n		f.handle.data.Reset(f.data)\n		return f.handle\n	}\n	h := &fileHandle{\n		fi:   f.fi,\n		data: bytes.NewReader(f.data),\n	}\n	f.handle = h")]),
('tmpl-suffix','C30',[("internal/tmplfs/fs.go",'strings.HasSuffix(name, ".html")','strings.HasSuffix(strings.ToLower(name), ".html")')]),
('tmpl-query','C30',[("internal/tmplfs/fs.go",'w.req.FormValue("metric")','template.URL(w.req.FormValue("metric"))')]),
('tmpl-raw','C30',[("internal/tmplfs/fs.go",'"query":  w.req.URL.RawQuery','"query":  template.JS(w.req.URL.RawQuery)')]),
('tmpl-size','C30',[("internal/tmplfs/fs.go",'size:     f.size,','size:     info.Size(),')]),
('tmpl-noclose','C30',[("internal/tmplfs/fs.go",'		if err != nil {\n			f.Close()','		if err == nil {\n			f.Close()')]),
('tmpl-post','C30',[("internal/tmplfs/fs.go",'w.req.FormValue("metric")','w.req.URL.Query()["metric"]')]),
# typeassert / config
('ta-int','C27',[("internal/typeassert/asserter.go","	m, ok := a.x.(int64)\n","	m, ok := a.x.(int64)\n	if f, isf := a.x.(float64); isf {\n		m, ok = int64(f), true\n	}\n")]),
('ta-float','C27',[("internal/typeassert/asserter.go","	m, ok := a.x.(float64)\n","	m, ok := a.x.(float64)\n	if n, isn := a.x.(int64); isn {\n		m, ok = float64(n), true\n	}\n")]),
('ta-err','C27',[("internal/typeassert/asserter.go","		err:  a.err,","		err:  new(error),")]),
('ta-first','C27',[("internal/typeassert/asserter.go","	if *a.err != nil || a.x == nil {\n		return false","	if a.x == nil {\n		return false")]),
('ta-bounds','C27',[("internal/typeassert/asserter.go","	if index >= len(m) {","	if index > len(m) {")]),
('ta-path','C27',[("internal/typeassert/asserter.go","		path: a.path + path,","		path: path,")]),
('conf-one','C27',[("config/load.go","	if len(tomlConfig.Database) != 1 {","	if len(tomlConfig.Database) == 0 {")]),
('conf-list','C27',[("config/load.go",'		for _, config := range configs {\n			conf','		for i, config := range configs {\n			if i > 0 && len(configs) > 8 {\n				break\n			}\n			conf')]),
('conf-swap','C27',[("config/load.go",'			TLS:      APITLSConfig(tomlConfig.API.TLS),','			TLS:      APITLSConfig{Key: tomlConfig.API.TLS.Cert, Cert: tomlConfig.API.TLS.Key},')]),
('conf-from','C27',[("config/load.go","		from: tomlConfig,","		from: &struct{ API interface{} }{tomlConfig.API},")]),
('conf-dur','C27',[("config/load.go","			Duration: tomlConfig.Main.Duration.Duration,","			Duration: tomlConfig.Main.Duration.Duration.Round(time.Millisecond),"),("config/load.go",'import (\n','import (\n	"time"\n')]),
('conf-redact','C27',[("config/config.go",'	a.TLS.Cert = "redacted"\n','	if a.TLS.Key == "" {\n		a.TLS.Cert = "redacted"\n	}\n')]),
('files-cap','C27',[("database/files/register.go",'Drop:    a.I("tuning").I("drop").Bool()','Drop:    a.I("tuning").I("drop").Bool() && a.I("tuning").I("buffer").Int64() > 0')]),
('files-handles','C27',[("database/files/register.go",'int(a.I("tuning").I("handles").Int64())','int(a.I("tuning").I("handle").Int64())')]),
('files-work','C27',[("database/files/register.go",'int(a.I("tuning").I("workers").Int64())','int(a.I("tuning").I("workers").Int64()) % 64')]),
('td-comp','C27',[("dist/tdigest/register.go",'a.I("compression").Float64()','math.Round(a.I("compression").Float64())'),("dist/tdigest/register.go",'import (\n','import (\n	"math"\n')]),
# registry
('reg-first','C28',[("registry/registry.go","	r.databases[name] = maker\n","	if _, ok := r.databases[name]; !ok {\n		r.databases[name] = maker\n	}\n")]),
('reg-nil','C28',[("registry/registry.go",'	maker, ok := r.distributions[name]\n	r.mu.Unlock()\n','	maker, ok := r.distributions[name]\n	r.mu.Unlock()\n	if m, isdb := r.databases[name]; !ok && isdb {\n		_ = m\n	}\n')]),
('reg-default','C28',[("registry/common.go","	return Default.NewDistribution(ctx, name, config)","	params, err := Default.NewDistribution(ctx, name, config)\n	if err != nil {\n		return nil, err\n	}\n	return params, nil")]),
('reg-ctx','C28',[("registry/registry.go",'''	maker, ok := r.listeners[name]
	r.mu.Unlock()

	if !ok {
		return nil, errs.New("no registration for: %q", name)
	}

	return maker.New(ctx, config)''','''	maker, ok := r.listeners[name]
	r.mu.Unlock()

	if !ok {
		return nil, errs.New("no registration for: %q", name)
	}

	return maker.New(context.Background(), config)''')]),
# run
('run-nodump','C18',[("run.go","		dumper.Dump(ctx, w)\n","		go dumper.Dump(ctx, w)\n")]),
('run-auth','C18 C27',[("run.go","			Password: conf.API.Security.Password,","			Password: conf.API.Security.Username,")]),
('run-origin','C27 C18',[("run.go","			Origin:   conf.API.Origin,\n","")]),
('run-tls','C27 C18',[("run.go",'	if cert != "" || key != "" {','	if cert != "" && key != "" {')]),
('run-one','C18 C27',[("run.go","		entity := entity\n","		if entity.Config == nil {\n			continue\n		}\n		entity := entity\n")]),
('run-errlost','C18',[("run.go","		if err := launcher.Run(sigint_ctx); err != nil {\n			return err\n		}","		launcher.Run(sigint_ctx)")]),
('run-errdump','C18',[("run.go","	if err == http.ErrServerClosed {","	if ctx.Err() != nil || err == http.ErrServerClosed {")]),
('run-sig','C18',[("run.go","junk.WithSignal(ctx, syscall.SIGINT)","junk.WithSignal(ctx, syscall.SIGTERM)")]),
('run-dbctx','C18',[("run.go","		return db.Run(ctx)","		ctx, cancel := junk.WithSignal(ctx, syscall.SIGINT)\n		defer cancel()\n		return db.Run(ctx)")]),
('run-started','C18 C31',[("run.go","		fmt.Printf(\"Invalid Configuration: %v\\n\", err)\n		return handled.Wrap(err)","		fmt.Printf(\"Invalid Configuration: %v\\n\", err)\n		return nil")]),
('run-shut','C18',[("run.go","		srv.Shutdown(ctx)\n","		srv.Shutdown(ctx)\n		<-ctx.Done()\n")]),
('run-http','C18',[("run.go","	defer lis.Close()\n\n	ctx, cancel := context.WithCancel(ctx)\n	defer cancel()\n","	defer lis.Close()\n")]),
# init, demo
('init-trunc','C31',[("init.go","os.O_WRONLY|os.O_CREATE|os.O_EXCL","os.O_WRONLY|os.O_CREATE")]),
('init-mode','C31',[("init.go","0644","0000")]),
('demo-gap','C31',[("demo.go","				t0, t1, mean = t1, t1.Add(tdelta), mean+mdelta","				t0, t1, mean = t1.Add(time.Nanosecond), t1.Add(tdelta), mean+mdelta")]),
('demo-tz','C31',[("demo.go","		duration     = 24 * time.Hour","		duration     = 23 * time.Hour")]),
('demo-min','C31',[("demo.go","					if val < min {","					if val < min && val > 0 {")]),
('demo-obs','C31',[("demo.go","					Observations: int64(obs),","					Observations: observations,")]),
('demo-err','C31',[("demo.go","				if err := <-errors; err != nil {\n					return errs.Wrap(err)\n				}","				<-errors")]),
('demo-nowait','C31',[("demo.go","	errors := make(chan error, 1)","	errors := make(chan error, 1000)"),("demo.go","				if err := <-errors; err != nil {\n					return errs.Wrap(err)\n				}","				select {\n				case err := <-errors:\n					if err != nil {\n						return errs.Wrap(err)\n					}\n				default:\n				}")]),
]
