RUN='run.go'; DEMO='demo.go'; REG='registry/registry.go'; LOAD='config/load.go'; D='dump/dump.go'; A='api/common.go'; S='api/server.go'; L='listener/graphite/listener.go'; X='external/resources.go'; LA='internal/junk/launcher.go'
B=[
('plug-reverse','C33',[(RUN,"	for _, path := range conf.Main.Plugins {","	for i := range conf.Main.Plugins {\n		path := conf.Main.Plugins[len(conf.Main.Plugins)-1-i]")]),
('plug-ignored','C33',[(RUN,"		_, err := plugin.Open(path)\n		if err != nil {\n			return false, errs.Wrap(err)\n		}","		if _, err := plugin.Open(path); err != nil {\n			external.Errorw(\"loading plugin\", \"err\", err.Error())\n		}")]),
('plug-ignored-demo','C33',[(DEMO,"		_, err := plugin.Open(path)\n		if err != nil {\n			return false, errs.Wrap(err)\n		}","		if _, err := plugin.Open(path); err != nil {\n			external.Errorw(\"loading plugin\", \"err\", err.Error())\n		}")]),
('plug-base','C33',[(RUN,"	for _, path := range conf.Main.Plugins {","	seen := map[string]bool{}\n	for _, path := range conf.Main.Plugins {\n		base := path[strings.LastIndex(path, \"/\")+1:]\n		if seen[base] {\n			continue\n		}\n		seen[base] = true"),(RUN,"	\"syscall\"\n","	\"strings\"\n	\"syscall\"\n")]),
('plug-empty','C33',[(RUN,"	for _, path := range conf.Main.Plugins {","	for _, path := range conf.Main.Plugins {\n		if path == \"\" {\n			continue\n		}")]),
('plug-missing-ok','C33',[(RUN,"	for _, path := range conf.Main.Plugins {","	for _, path := range conf.Main.Plugins {\n		if _, err := os.Stat(path); os.IsNotExist(err) {\n			continue\n		}"),(RUN,"	\"syscall\"\n","	\"os\"\n	\"syscall\"\n")]),
('reg-first','C33 C28',[(REG,"	r.databases[name] = maker","	if _, ok := r.databases[name]; !ok {\n		r.databases[name] = maker\n	}")]),
('reg-lower','C33 C28',[(REG,"	r.listeners[name] = maker","	r.listeners[strings.ToLower(name)] = maker"),(REG,"r.listeners[name]\n","r.listeners[strings.ToLower(name)]\n"),(REG,"	\"sync\"\n","	\"strings\"\n	\"sync\"\n")]),
('load-lower','C33 C27',[(LOAD,"		conf.Database = Entity{\n			Kind:   kind,","		conf.Database = Entity{\n			Kind:   strings.Replace(kind, \".\", \"_\", -1),"),(LOAD,"import (\n","import (\n	\"strings\"\n\n")]),
('run-dumpctx','C33 C18',[(RUN,"		ctx, cancel = context.WithTimeout(ctx, 60*time.Second)","		ctx, cancel = context.WithTimeout(sigint_ctx, 60*time.Second)")]),
('run-dump1s','C33 C18',[(RUN,"		ctx, cancel = context.WithTimeout(ctx, 60*time.Second)","		ctx, cancel = context.WithTimeout(ctx, 1*time.Millisecond)")]),
('run-early-nodump','C33',[(RUN,"		// run with the parent of the sigint_ctx so","		if sigint_ctx.Err() == nil {\n			return nil\n		}\n\n		// run with the parent of the sigint_ctx so")]),
('run-db-with','C33 C18',[(RUN,"	parent.Queue(func(ctx context.Context) error {\n		external.Infow(\"starting database\"","	launcher.Queue(func(ctx context.Context) error {\n		external.Infow(\"starting database\"")]),
('run-lisconf','C33 C27',[(RUN,"registry.NewListener(ctx, entity.Kind, entity.Config)","registry.NewListener(ctx, entity.Kind, conf.Listeners[0].Config)")]),
('run-distconf','C33 C27',[(RUN,"		conf.Dist.Kind, conf.Dist.Config)\n	if err","		conf.Dist.Kind, nil)\n	if err")]),
('run-dberr','C33',[(RUN,"		return db.Run(ctx)","		db.Run(ctx)\n		return nil")]),
('run-liserr','C33',[(RUN,"			return listener.Run(ctx, w)","			listener.Run(ctx, w)\n			return nil")]),
('run-lisend','C33 C29',[(RUN,"			return listener.Run(ctx, w)","			err := listener.Run(ctx, w)\n			if err == nil {\n				<-ctx.Done()\n			}\n			return err")]),
('run-lisonce','C33',[(RUN,"		launcher.Queue(func(ctx context.Context) error {\n			external.Infow(\"starting listener\"","		go listener.Run(ctx, w)\n		launcher.Queue(func(ctx context.Context) error {\n			external.Infow(\"starting listener\""),(RUN,"			return listener.Run(ctx, w)","			<-ctx.Done()\n			return nil")]),
('run-bg-dump','C33 C18',[(RUN,"		dumper.Dump(ctx, w)\n		return nil","		go dumper.Dump(ctx, w)\n		time.Sleep(100 * time.Millisecond)\n		return nil")]),
('launch-nowait','C33 C29',[(LA,"	defer wg.Wait()\n","")]),
('demo-conf','C33',[(DEMO,"		conf.Dist.Kind, conf.Dist.Config)","		conf.Dist.Kind, conf.Database.Config)")]),

('ext-monitor','C33 C32',[(X,"	if r.Monitor != nil {","	if r.Monitor != nil && r.Logger != nil {")]),
('log-uri','C32',[(S,'		"path", req.URL.Path,','		"path", req.RequestURI,')]),
('log-nonce-prefix','C32',[(S,'	if req.URL.Path == "/api/nonce" {','	if strings.HasSuffix(req.URL.Path, "/nonce") {'),(S,'	"net/http"\n','	"net/http"\n	"strings"\n')]),
('log-errors-only','C32',[(S,'	if req.URL.Path == "/api/nonce" {','	if req.URL.Path == "/api/nonce" || tracker.code == 304 || tracker.code == 301 {')]),
('log-status-auth','C32',[(S,"			tracker.WriteHeader(getStatusCode(err))\n","			w.WriteHeader(getStatusCode(err))\n")]),
('dump-log-limit','C32',[(D,"			if !written || err != nil {\n","			if (!written || err != nil) && atomic.LoadInt64(&errors) < 50 {\n")]),
('dump-log-nowritten','C32',[(D,"			if !written || err != nil {\n","			if err != nil {\n")]),
('dump-skip-return','C32',[(D,"		if err != nil {\n			complete(false, err)","		if err != nil {\n			atomic.AddInt64(&skips, -1)\n			complete(false, err)")]),
('dump-zero-silent','C32',[(D,'	external.Observe("metric_errors", float64(errors))','	if errors > 0 {\n		external.Observe("metric_errors", float64(errors))\n	}')]),
('dump-ms','C32',[(D,'duration.Seconds()','float64(duration / time.Millisecond)')]),
('dump-reason','C32',[(D,'"err", safeError(err),','"err", err != nil,')]),
('dump-nonatomic','C32',[(D,"				atomic.AddInt64(&writes, 1)","				writes++")]),
('lis-limit','C32',[(L,"		err = handleLine(ctx, w, line)\n		if err != nil {","		err = handleLine(ctx, w, line)\n		if err != nil {\n			bad++\n		}\n		if err != nil && bad < 10 {"),(L,"	reader := bufio.NewReaderSize(conn, maxLine)\n","	reader, bad := bufio.NewReaderSize(conn, maxLine), 0\n")]),
('lis-cut','C32',[(L,'"line", string(line),','"line", string(line[:(len(line)+1)/2]),')]),
('lis-fields-silent','C32',[(L,'	if len(fields) != 3 {','	if len(fields) == 1 {\n		return nil\n	}\n	if len(fields) != 3 {')]),
]
