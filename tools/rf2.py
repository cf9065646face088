exec(open('/tmp/rf.py').read().split("D='database")[0])
ed('draw/heatmap/heatmap.go',('''	for y := 0; y < d.height; y++ {
		// TODO(jeff)''','''	for row := d.height; row > 0; row-- {
		y := d.height - row
		// TODO(jeff)'''),('''			row := (d.height - 1 - y + m.Y) * m.Stride
			low := row + 4*(x0+m.X)
			high := row + 4*(x1+m.X)
''','''			start := (row - 1 + m.Y) * m.Stride
			low := start + 4*(x0+m.X)
			high := start + 4*(x1+m.X)
'''),('''				d.opts.Canvas.Set(x, d.height-1-y, last_color)''','''				d.opts.Canvas.Set(x, row-1, last_color)'''))
ed('draw/key/key.go',('''	for y := 0; y < opts.Height; y++ {
		index := int(float64(opts.Height-1-y) * scale)
		color := opts.Colors[index]
		for x := 0; x < opts.Width; x++ {
			canvas.Set(x, y, color)
		}
	}
''','''	for i := 0; i < opts.Height; i++ {
		color := opts.Colors[int(float64(i)*scale)]
		drawRow(canvas, opts.Height-1-i, opts.Width, color)
	}
'''),('''func Draw(canvas''','''func drawRow(canvas *draw.RGB, y, width int, color draw.Color) {
	for x := 0; x < width; x++ {
		canvas.Set(x, y, color)
	}
}

// Draw draws the key onto the canvas.
func Draw(canvas'''))
ed('draw/observations/obs.go',('''	for _, col := range cols {
		if col.ObsSec > max {
			max = col.ObsSec
			x = col.X
		}
	}
''','''	for i := range cols {
		if cols[i].ObsSec <= max {
			continue
		}
		max, x = cols[i].ObsSec, cols[i].X
	}
'''),('''	end := x + label_width
	if end > m.opts.Width {
		x = m.opts.Width - label_width
	}
''','''	if most := m.opts.Width - label_width; x > most {
		x = most
	}
'''))
ed('draw/axis/axis.go',('''	occupied := 0
	for i, label := range m.opts.Labels {
		b := m.bounds[i]
		y := int(float64(m.opts.Length-1) * label.Position)
		height := y - b.Min.Y.Ceil()

		for x := 0; x < tickSize; x++ {
			canvas.Set(maybeFlip(axisWidth+x), y, draw.Color{})
		}
''','''	for _, label := range m.opts.Labels {
		y := int(float64(m.opts.Length-1) * label.Position)
		for x := axisWidth; x < axisWidth+tickSize; x++ {
			canvas.Set(maybeFlip(x), y, draw.Color{})
		}
	}

	// and then the labels
	occupied := 0
	for i, label := range m.opts.Labels {
		b := m.bounds[i]
		y := int(float64(m.opts.Length-1) * label.Position)
		height := y - b.Min.Y.Ceil()
'''))
ed('draw/graph/graph.go',('''	for i := 0; i < len(labels)/2; i++ {
		si := len(labels) - 1 - i
		labels[i], labels[si] = labels[si], labels[i]
	}
''','''	for i, j := 0, len(labels)-1; i < j; i, j = i+1, j-1 {
		labels[i], labels[j] = labels[j], labels[i]
	}
'''),('''		for y := 0; y <= height-labelGap; y += labelGap {
			pos := float64(y) / float64(height)
			val := opts.Earliest.Query(1 - pos)
			if val16, ok := float16.FromFloat64(val); ok {
				val = val16.Float64()
			}
			labels = append(labels, axis.Label{
				Position: pos,
				Text:     fmt.Sprintf("%#.3g", val),
			})
		}

		val := opts.Earliest.Query(0)
		if val16, ok := float16.FromFloat64(val); ok {
			val = val16.Float64()
		}
		labels = append(labels, axis.Label{
			Position: 1,
			Text:     fmt.Sprintf("%#.3g", val),
		})
''','''		add := func(pos float64) {
			val := opts.Earliest.Query(1 - pos)
			if val16, ok := float16.FromFloat64(val); ok {
				val = val16.Float64()
			}
			labels = append(labels, axis.Label{
				Position: pos,
				Text:     fmt.Sprintf("%#.3g", val),
			})
		}
		for y := 0; y <= height-labelGap; y += labelGap {
			add(float64(y) / float64(height))
		}
		add(1)
'''),('''	m.Obs.Draw(ctx, opts.Columns, opts.Canvas.View(
		m.opts.Padding+m.Left.Width,
		m.opts.Padding,
		m.Obs.Width,
		m.Obs.Height,
	))

	m.Left.Draw(''','''	defer func(canvas *draw.RGB) {
		m.Obs.Draw(ctx, opts.Columns, canvas.View(
			m.opts.Padding+m.Left.Width,
			m.opts.Padding,
			m.Obs.Width,
			m.Obs.Height,
		))
	}(opts.Canvas)

	m.Left.Draw('''))
ed('internal/tmplfs/fs.go',('''	if !strings.HasSuffix(name, ".html") {
		return f, nil
	}

	// close only if we have any errors
	defer func() {
		if err != nil {
			f.Close()
		}
	}()

	// TODO(jeff): caching of the parsed template?

	data, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}

	tmpl, err := template.New("").Parse(string(data))
	if err != nil {
		return nil, err
	}
''','''	if strings.HasSuffix(name, ".html") {
		out, err := w.expand(f)
		if err != nil {
			f.Close()
			return nil, err
		}
		return out, nil
	}
	return f, nil
}

// expand expands the file.
func (w *wrapper) expand(f http.File) (_ http.File, err error) {
	data, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}

	tmpl, err := template.New("page").Parse(string(data))
	if err != nil {
		return nil, err
	}
'''))
ed('internal/tgzfs/fs.go',('''	for _, part := range splitPath(path) {
		if len(part) == 0 {
			continue
		}
		children := child.children
		child = children[part]
		if child == nil {
			if !alloc {
				return fs.def
			}
			child = newFile()
			child.setFileInfo(dirFileInfo{name: part})
			children[part] = child
		}
	}
	return child
''','''	for _, part := range splitPath(path) {
		if part == "" {
			continue
		}
		next, ok := child.children[part]
		switch {
		case ok:
		case !alloc:
			return fs.def
		default:
			next = newFile()
			next.setFileInfo(dirFileInfo{name: part})
			child.children[part] = next
		}
		child = next
	}
	return child
'''))
ed('internal/junk/signal.go',('''	go func() {
		select {
		case <-ctx.Done():
		case sig := <-ch:
			external.Infow("signal received",
				"signal", sig.String(),
			)
			cancel()
			signal.Stop(ch)
		}
	}()
''','''	go func() {
		defer signal.Stop(ch)
		defer cancel()
		select {
		case sig := <-ch:
			external.Infow("signal received", "signal", sig.String())
		case <-ctx.Done():
		}
	}()
'''))
ed('internal/typeassert/asserter.go',('''func (a *Asserter) Int() int {
	if *a.err != nil || a.x == nil {
		return 0
	}
	m, ok := a.x.(int)
	if !ok {
		*a.err = errs.New("invalid type: int != %T at %s", a.x, a.path)
	}
	return m
}
''','''func (a *Asserter) Int() (m int) {
	a.assert("int", func(x interface{}) (ok bool) { m, ok = x.(int); return })
	return m
}

func (a *Asserter) assert(what string, fn func(x interface{}) bool) {
	if *a.err == nil && a.x != nil && !fn(a.x) {
		*a.err = errs.New("invalid type: %s != %T at %s", what, a.x, a.path)
	}
}
'''),('''	m, ok := a.x.(int64)
	if !ok {
		*a.err = errs.New("invalid type: int64 != %T at %s", a.x, a.path)
	}
	return m
''','''	if m, ok := a.x.(int64); ok {
		return m
	}
	*a.err = errs.New("type %T is no int64 at %s", a.x, a.path)
	return 0
'''))
ed('init.go',('''		if os.IsExist(err) {
			fmt.Printf("config file already exists. remove %q first\\n",
				configPath)
			return handled.New("")
		}
		if err != nil {
			return errs.Wrap(err)
		}
''','''		switch {
		case err == nil:
		case os.IsExist(err):
			fmt.Printf("config file already exists. remove %q first\\n",
				configPath)
			return handled.New("")
		default:
			return errs.Wrap(err)
		}
'''),('''		fmt.Printf("wrote initial config to %q\\n", configPath)''','''		fmt.Printf("the initial config is in %q now\\n", configPath)'''))
