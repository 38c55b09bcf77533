import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
G='gopdf.go'
PP='''	var pointReals []Point
	for _, p := range points {
		x := p.X
		y := p.Y
		gp.UnitsToPointsVar(&x, &y)
		pointReals = append(pointReals, Point{X: x, Y: y})
	}
	gp.getContent().AppendStreamPolygon(pointReals, style, opts)
'''
show('polygon retained when points',[(G,PP,'''	pointReals := points
	if gp.config.Unit != UnitPT {
		pointReals = nil
		for _, p := range points {
			x := p.X
			y := p.Y
			gp.UnitsToPointsVar(&x, &y)
			pointReals = append(pointReals, Point{X: x, Y: y})
		}
	}
	gp.getContent().AppendStreamPolygon(pointReals, style, opts)
''')])
show('polygon in place',[(G,PP,'''	for i := range points {
		gp.UnitsToPointsVar(&points[i].X, &points[i].Y)
	}
	gp.getContent().AppendStreamPolygon(append([]Point(nil), points...), style, opts)
''')])
show('polygon filter in place',[(G,PP,'''	pointReals := points[:0]
	for _, p := range points {
		x := p.X
		y := p.Y
		gp.UnitsToPointsVar(&x, &y)
		pointReals = append(pointReals, Point{X: x, Y: y})
	}
	gp.getContent().AppendStreamPolygon(append([]Point(nil), pointReals...), style, opts)
''')])
show('rect fast path',[('rect.go','''		unitCfg = rect.unitOverride
	}

	r = &Rect{W: rect.W, H: rect.H}
	unitsToPointsVar(unitCfg, &r.W, &r.H)
	return
}

func (rect *Rect) unitsToPoints''','''		unitCfg = rect.unitOverride
	}

	if unitCfg.Unit == UnitPT {
		return rect
	}
	r = &Rect{W: rect.W, H: rect.H}
	unitsToPointsVar(unitCfg, &r.W, &r.H)
	return
}

func (rect *Rect) unitsToPoints''')])
show('box in place',[('box.go','''	b = &Box{
		Left:   box.Left,
		Top:    box.Top,
		Right:  box.Right,
		Bottom: box.Bottom,
	}
	unitsToPointsVar(unitCfg, &b.Left, &b.Top, &b.Right, &b.Bottom)
	return
}

func (box *Box) unitsToPoints''','''	b = box
	unitsToPointsVar(unitCfg, &b.Left, &b.Top, &b.Right, &b.Bottom)
	return
}

func (box *Box) unitsToPoints''')])
show('crop kept',[('content_obj.go','		cropOpts := *opts.Crop\n		crop = &cropOpts\n','		crop = opts.Crop\n')])
show('mask in place',[(G,'''		mask := *opts.Mask // the options of the mask belong to the caller
		opts.Mask = &mask
''','')])
show('transparency kept',[(G,'		saved := *transparency // it belongs to the caller\n','		saved := transparency\n'),(G,'transparencyMap.Save(saved)','transparencyMap.Save(*saved)'),(G,'return &saved, nil','return saved, nil')])
show('row kept',[('table.go','append([]RowCell(nil), row...)','row')])
show('cols sorted',[('table.go','append([]RowCell(nil), row...)','append(row[:0:0], row...)')])
show('rowkept slice',[('table.go','append([]RowCell(nil), row...)','row[:len(row):len(row)]')])
show('break option trimmed in place',[(G,'func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOption) ([]string, error) {\n','func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOption) ([]string, error) {\n	if opt != nil && opt.Separator == "" {\n		opt.Separator = "-"\n	}\n')])
show('cell rect align',[(G,'''func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) error {
''','''func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) error {
	if rectangle != nil && rectangle.W < 0 {
		rectangle.W = 0
	}
''')])
show('benign points copy',[(G,PP,'''	pointReals := make([]Point, len(points))
	copy(pointReals, points)
	for i := range pointReals {
		pt := &pointReals[i]
		gp.UnitsToPointsVar(&pt.X, &pt.Y)
	}
	gp.getContent().AppendStreamPolygon(pointReals, style, opts)
''')])
show('benign points helper',[(G,PP,'''	gp.getContent().AppendStreamPolygon(gp.conv(points), style, opts)
'''),(G,'// ClipPolygon sets','''func (gp *GoPdf) conv(points []Point) (out []Point) {
	for i := 0; i < len(points); i++ {
		p := points[i]
		gp.UnitsToPointsVar(&p.X, &p.Y)
		out = append(out, p)
	}
	return out
}

// ClipPolygon sets''')])
show('benign points clone',[(G,PP,'''	pointReals := append([]Point(nil), points...)
	for i := range pointReals {
		gp.UnitsToPointsVar(&pointReals[i].X, &pointReals[i].Y)
	}
	gp.getContent().AppendStreamPolygon(pointReals, style, opts)
''')])
show('benign mask local',[(G,'''		mask := *opts.Mask // the options of the mask belong to the caller
		opts.Mask = &mask
''','''		mask := *opts.Mask // the options of the mask belong to the caller
'''),(G,'''		maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
		if err != nil {
			return err
		}

		if maskTransparency != nil {
			opts.Mask.ImageOptions.extGStateIndexes = append(opts.Mask.ImageOptions.extGStateIndexes, maskTransparency.extGStateIndex)
		}

		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.UnitsToPoints(gp.config.Unit)

		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
''','''		maskTransparency, err := gp.getCachedTransparency(mask.ImageOptions.Transparency)
		if err != nil {
			return err
		}

		mopts := mask.ImageOptions
		if maskTransparency != nil {
			mopts.extGStateIndexes = append(mopts.extGStateIndexes, maskTransparency.extGStateIndex)
		}

		gp.UnitsToPointsVar(&mopts.X, &mopts.Y)
		mopts.Rect = mopts.Rect.UnitsToPoints(gp.config.Unit)
		mask.ImageOptions = mopts

		extGStateIndex, err := gp.maskHolder(mask.Holder, mask)
''')])
show('benign rect ctor',[('rect.go','''	r = &Rect{W: rect.W, H: rect.H}
	unitsToPointsVar(unitCfg, &r.W, &r.H)
	return
}

func (rect *Rect) unitsToPoints''','''	c := *rect
	c.unitOverride = defaultUnitConfig{}
	unitsToPointsVar(unitCfg, &c.W, &c.H)
	return &c
}

func (rect *Rect) unitsToPoints''')])
show('benign nil rect default',[(G,'''	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
	text, err''','''	if rectangle == nil {
		rectangle = &Rect{}
	}
	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
	text, err''',1)])
