import sys,os
os.environ['MUT_ID']='L01'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
G='gopdf.go'; M='margin.go'
# --- bugs
s('bug line one not converted',[(G,'	gp.UnitsToPointsVar(&x1, &y1, &x2, &y2)\n	transparency, err','	gp.UnitsToPointsVar(&x1, &y1, &x2)\n	transparency, err')])
s('bug oval none',[(G,'	gp.UnitsToPointsVar(&x1, &y1, &x2, &y2)\n	gp.getContent().AppendStreamOval','	gp.getContent().AppendStreamOval')])
s('bug line width twice',[(G,'	gp.getContent().AppendStreamSetLineWidth(gp.UnitsToPoints(width))','	gp.getContent().AppendStreamSetLineWidth(width)')])
s('bug line width curr',[(G,'	gp.curr.lineWidth = gp.UnitsToPoints(width)\n','	gp.curr.lineWidth = width\n')])
s('bug rect twice',[(G,'''	opts := DrawableRectOptions{
		X: x,
		Y: y,
		Rect: Rect{
			H: hght,
			W: wdth,
		},
		PaintStyle: parseStyle(style),
	}
	gp.RectFromLowerLeftWithOpts(opts)''','''	gp.UnitsToPointsVar(&x, &y)
	opts := DrawableRectOptions{
		X: x,
		Y: y,
		Rect: Rect{
			H: hght,
			W: wdth,
		},
		PaintStyle: parseStyle(style),
	}
	gp.RectFromLowerLeftWithOpts(opts)''')])
s('bug measure in points',[(G,'	return pointsToUnits(gp.config, textWidthPdfUnit), nil','	return textWidthPdfUnit, nil')])
s('bug height unit only',[(G,'	return pointsToUnits(gp.config, cellHeightPdfUnit), nil','	return PointsToUnits(gp.config.Unit, cellHeightPdfUnit), nil')])
s('bug getY',[(G,'	return gp.PointsToUnits(gp.curr.Y)','	return gp.curr.Y')])
s('bug br',[(G,'	gp.UnitsToPointsVar(&h)\n	gp.curr.Y += h\n','	gp.curr.Y += h\n')])
s('bug br back',[(G,'	gp.UnitsToPointsVar(&h)\n	gp.curr.Y += h\n','	gp.SetY(gp.curr.Y + gp.UnitsToPoints(h))\n')])
s('bug multicell line height points',[(G,'''	gp.PointsToUnitsVar(&lineHeight)

	textSplits''','''
	textSplits''')])
s('bug multicell x points',[(G,'''	x := gp.GetX()

	// get lineHeight
	itext''','''	x := gp.curr.X

	// get lineHeight
	itext''')])
s('bug margin top raw',[(M,'	gp.margins.Top = gp.UnitsToPoints(margin)','	gp.margins.Top = margin')])
s('bug margins conv 3',[(M,'(&left, &top, &right, &bottom)','(&left, &top, &right)')])
s('bug margin get',[(M,'	return gp.PointsToUnits(gp.margins.Bottom)','	return gp.UnitsToPoints(gp.margins.Bottom)')])
s('bug setnewy',[(G,'	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {\n		gp.AddPage()\n		y = gp.margins.Top // reset to top of the page.\n	}\n	gp.curr.Y = y\n}','	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {\n		gp.AddPage()\n		y = gp.margins.Top // reset to top of the page.\n	}\n	gp.curr.Y = y\n}')])
s('bug polygon x only',[(G,'''		gp.UnitsToPointsVar(&x, &y)
		pointReals = append(pointReals, Point{X: x, Y: y})
	}
	gp.getContent().AppendStreamPolygon''','''		gp.UnitsToPointsVar(&x)
		pointReals = append(pointReals, Point{X: x, Y: y})
	}
	gp.getContent().AppendStreamPolygon''')])
s('bug polygon points direct',[(G,'	gp.getContent().AppendStreamClipPolygon(pointReals)','	gp.getContent().AppendStreamClipPolygon(points)')])
s('bug dashes skip first',[(G,'	for i := range dashes {\n		gp','	for i := 1; i < len(dashes); i++ {\n		gp')])
s('bug dash phase',[(G,'	gp.UnitsToPointsVar(&dashPhase)\n','')])
s('bug crop',[(G,'	opts.Crop = opts.Crop.unitsToPoints(gp.config)\n','')])
s('bug crop part',[(G,'	unitsToPointsVar(unitCfg, &c.X, &c.Y, &c.Width, &c.Height)','	unitsToPointsVar(unitCfg, &c.X, &c.Y, &c.Width)')])
s('bug image rect missing',[(G,'	opts.Rect = opts.Rect.unitsToPoints(gp.config)\n	opts.Crop','	opts.Crop')])
s('bug page size',[(G,'	opt.PageSize = opt.PageSize.unitsToPoints(gp.config)\n','')])
s('bug link',[(G,'	gp.UnitsToPointsVar(&x, &y, &w, &h)\n\n	linkOpt := linkOption{x, gp.curr.pageSize.H - y, w, h, "", anchor}','	gp.UnitsToPointsVar(&x, &y, &w)\n\n	linkOpt := linkOption{x, gp.curr.pageSize.H - y, w, h, "", anchor}')])
s('bug char spacing',[(G,'	gp.UnitsToPointsVar(&charSpacing)\n','')])
s('bug rotate',[(G,'	gp.UnitsToPointsVar(&x, &y)\n	gp.getContent().appendRotate(angle, x, y)','	gp.UnitsToPointsVar(&x)\n	gp.getContent().appendRotate(angle, x, y)')])
s('bug cell unit',[(G,'	rectangle = rectangle.unitsToPoints(gp.config)\n	defaultopt','	rectangle = rectangle.UnitsToPoints(gp.config.Unit)\n	defaultopt')])
s('bug isfit twice',[(G,'''	gp.PointsToUnitsVar(&lineHeight)

	for i, v := range []rune(text) {
		if totalLineHeight+lineHeight > rectangle.H {
			return''','''	gp.PointsToUnitsVar(&lineHeight)
	gp.PointsToUnitsVar(&lineHeight)

	for i, v := range []rune(text) {
		if totalLineHeight+lineHeight > rectangle.H {
			return''')])
s('bug table half points',[('table.go','	half := borderStyle.Width / 2.0','	half := t.pdf.curr.lineWidth / 2.0')])
s('bug bbox copies',[(G,'			gp.UnitsToPointsVar(&bbox[0], &bbox[1], &bbox[2], &bbox[3])','			gp.UnitsToPointsVar(&bbox[0], &bbox[1], &bbox[2])')])
s('bug anchor',[(G,'	y := gp.curr.pageSize.H - gp.curr.Y + float64(gp.curr.FontSize)','	y := gp.curr.pageSize.H - gp.GetY() + float64(gp.curr.FontSize)')])
s('bug image cond conv',[(G,'	gp.UnitsToPointsVar(&x, &y)\n\n	rect = rect','	if x > 0 {\n		gp.UnitsToPointsVar(&x)\n	}\n	gp.UnitsToPointsVar(&y)\n\n	rect = rect')])
s('bug config page size',[(G,'	gp.config.PageSize = *gp.config.PageSize.unitsToPoints(gp.config)\n','')])
# --- benign
s('ok line helper',[(G,'	gp.UnitsToPointsVar(&x1, &y1, &x2, &y2)\n	transparency, err','	x1, y1 = gp.both(x1, y1)\n	x2, y2 = gp.both(x2, y2)\n	transparency, err'),(G,'// Br : new line\n','func (gp *GoPdf) both(a, b float64) (float64, float64) {\n	return gp.UnitsToPoints(a), gp.UnitsToPoints(b)\n}\n\n// Br : new line\n')])
s('ok oval loop',[(G,'	gp.UnitsToPointsVar(&x1, &y1, &x2, &y2)\n	gp.getContent().AppendStreamOval','	for _, v := range []*float64{&x1, &y1, &x2, &y2} {\n		*v = gp.UnitsToPoints(*v)\n	}\n	gp.getContent().AppendStreamOval')])
s('ok dashes direct',[(G,'	copy(dashes, dashArray)\n	for i := range dashes {\n		gp.UnitsToPointsVar(&dashes[i])\n	}','	for i, v := range dashArray {\n		dashes[i] = gp.UnitsToPoints(v)\n	}')])
s('ok dashes append',[(G,'	dashes := make([]float64, len(dashArray))\n	copy(dashes, dashArray)\n	for i := range dashes {\n		gp.UnitsToPointsVar(&dashes[i])\n	}','	var dashes []float64\n	for _, v := range dashArray {\n		dashes = append(dashes, gp.UnitsToPoints(v))\n	}')])
s('ok dashes index loop',[(G,'	for i := range dashes {\n		gp.UnitsToPointsVar(&dashes[i])\n	}','	for i := 0; i < len(dashes); i++ {\n		dashes[i] = unitsToPoints(gp.config, dashes[i])\n	}')])
s('ok polygon helper',[(G,'''	var pointReals []Point
	for _, p := range points {
		x := p.X
		y := p.Y
		gp.UnitsToPointsVar(&x, &y)
		pointReals = append(pointReals, Point{X: x, Y: y})
	}
	gp.getContent().AppendStreamClipPolygon''','''	pointReals := gp.inPoints(points)
	gp.getContent().AppendStreamClipPolygon'''),(G,'// Br : new line\n','func (gp *GoPdf) inPoints(points []Point) []Point {\n	out := make([]Point, 0, len(points))\n	for i := 0; i < len(points); i++ {\n		out = append(out, Point{gp.UnitsToPoints(points[i].X), gp.UnitsToPoints(points[i].Y)})\n	}\n	return out\n}\n\n// Br : new line\n')])
s('ok setnewy units',[(G,'	if y+h > gp.curr.pageSize.H-gp.margins.Bottom {','	if bottom := gp.UnitsToPoints(gp.MarginBottom()); y+h > gp.curr.pageSize.H-bottom {')])
s('ok br set',[(G,'	gp.UnitsToPointsVar(&h)\n	gp.curr.Y += h\n','	gp.SetY(gp.GetY() + h)\n')])
s('ok rect spelled out',[(G,'	rectangle = rectangle.unitsToPoints(gp.config)\n	defaultopt','	if rectangle != nil {\n		rectangle = &Rect{W: gp.UnitsToPoints(rectangle.W), H: gp.UnitsToPoints(rectangle.H)}\n	}\n	defaultopt')])
s('ok crop spelled',[(G,'	opts.Crop = opts.Crop.unitsToPoints(gp.config)\n','	if opts.Crop != nil {\n		crop := *opts.Crop\n		gp.UnitsToPointsVar(&crop.X, &crop.Y)\n		crop.Width, crop.Height = gp.UnitsToPoints(crop.Width), gp.UnitsToPoints(crop.Height)\n		opts.Crop = &crop\n	}\n')])
s('ok bbox loop',[(G,'			gp.UnitsToPointsVar(&bbox[0], &bbox[1], &bbox[2], &bbox[3])','			for i := range bbox {\n				bbox[i] = gp.UnitsToPoints(bbox[i])\n			}')])
s('ok bbox early',[(G,'		if opts.Mask.BBox != nil {\n			bbox := *opts.Mask.BBox','		if b := opts.Mask.BBox; b != nil {\n			bbox := *b')])
s('ok margins struct',[(M,'	gp.UnitsToPointsVar(&left, &top, &right, &bottom)\n	gp.margins = Margins{left, top, right, bottom}','	m := Margins{left, top, right, bottom}\n	gp.UnitsToPointsVar(&m.Left, &m.Top, &m.Right, &m.Bottom)\n	gp.margins = m')])
s('ok setmargins by one',[(M,'	gp.UnitsToPointsVar(&left, &top, &right, &bottom)\n	gp.margins = Margins{left, top, right, bottom}','	gp.SetMarginLeft(left)\n	gp.SetMarginTop(top)\n	gp.SetMarginRight(right)\n	gp.SetMarginBottom(bottom)')])
s('ok measure method',[(G,'	return pointsToUnits(gp.config, textWidthPdfUnit), nil','	width := gp.PointsToUnits(textWidthPdfUnit)\n	return width, nil')])
s('ok multicell width',[(G,'	gp.PointsToUnitsVar(&lineHeight)\n\n	textSplits','	lineHeight = pointsToUnits(gp.config, lineHeight)\n\n	textSplits')])
s('ok placeholder',[(G,'	gp.UnitsToPointsVar(&placeHolderWidth)\n	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)','	width := gp.UnitsToPoints(placeHolderWidth)\n	placeHolderWidth = width\n	err = gp.getContent().appendStreamPlaceHolderText(width)')])
s('ok switch align',[(G,'''		if align == Right {
			diff := info.placeHolderWidth - textWidthPdfUnit
			contentText.x = contentText.x + diff
		} else if align == Center {
			diff := info.placeHolderWidth - textWidthPdfUnit
			contentText.x = contentText.x + diff/2
		}''','''		room := info.placeHolderWidth - textWidthPdfUnit
		switch align {
		case Right:
			contentText.x += room
		case Center:
			contentText.x += room / 2
		}''')])
s('ok closure',[(G,'	gp.UnitsToPointsVar(&x1, &y1, &x2, &y2)\n	gp.getContent().AppendStreamOval(x1, y1, x2, y2)','	pt := func(v float64) float64 { return gp.UnitsToPoints(v) }\n	gp.getContent().AppendStreamOval(pt(x1), pt(y1), pt(x2), pt(y2))')])
s('ok opts helper',[(G,'	gp.UnitsToPointsVar(&opts.X, &opts.Y, &opts.W, &opts.H)\n\n	opts.Y += opts.H\n','	opts = gp.optsInPoints(opts)\n	opts.Y += opts.H\n'),(G,'// Br : new line\n','func (gp *GoPdf) optsInPoints(o DrawableRectOptions) DrawableRectOptions {\n	gp.UnitsToPointsVar(&o.X, &o.Y, &o.Rect.W, &o.Rect.H)\n	return o\n}\n\n// Br : new line\n')])
s('ok rects by ptr helper',[(G,'	gp.UnitsToPointsVar(&opts.X, &opts.Y, &opts.W, &opts.H)\n\n	opts.Y += opts.H\n','	gp.toPoints(&opts)\n	opts.Y += opts.H\n'),(G,'// Br : new line\n','func (gp *GoPdf) toPoints(o *DrawableRectOptions) {\n	gp.UnitsToPointsVar(&o.X, &o.Y)\n	o.W, o.H = gp.UnitsToPoints(o.W), gp.UnitsToPoints(o.H)\n}\n\n// Br : new line\n')])
s('ok upper in units',[(G,'	gp.UnitsToPointsVar(&opts.X, &opts.Y, &opts.W, &opts.H)\n\n	opts.Y += opts.H\n','	opts.Y += opts.H\n	gp.UnitsToPointsVar(&opts.X, &opts.Y, &opts.W, &opts.H)\n')])
