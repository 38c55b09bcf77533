import sys,os
os.environ['MUT_ID']='F07'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
G='gopdf.go'; C='content_obj.go'; L='cache_content_line.go'; O='cache_content_oval.go'; R='cache_content_rectangle.go'; V='cache_contnent_curve.go'; P='cache_content_polygon.go'; CL='cache_content_clip.go'; W='cache_content_line_width.go'
LN='	fmt.Fprintf(w, "%0.2f %0.2f m %0.2f %0.2f l S\\n", c.x1, c.pageHeight-c.y1, c.x2, c.pageHeight-c.y2)\n'
s('bug line y',[(L,LN,LN.replace('pageHeight-c.y2','pageHeight-c.y1'))])
s('bug line s',[(L,LN,LN.replace('l S','l s'))])
s('bug line wiring',[(C,'	cache.x2 = x2\n	cache.y2 = y2\n	cache.opts = lineOpts','	cache.x2 = x1\n	cache.y2 = y2\n	cache.opts = lineOpts')])
s('bug line args',[(G,'AppendStreamLine(x1, y1, x2, y2, opts)','AppendStreamLine(x1, y1, y2, x2, opts)')])
s('benign line split',[(L,LN,'	h := c.pageHeight\n	fmt.Fprintf(w, "%0.2f %0.2f m ", c.x1, h-c.y1)\n	fmt.Fprintf(w, "%0.2f %0.2f l S\\n", c.x2, h-c.y2)\n')])
s('benign line lit',[(C,'''	var cache cacheContentLine
	cache.pageHeight = c.getRoot().curr.pageSize.H
	cache.x1 = x1
	cache.y1 = y1
	cache.x2 = x2
	cache.y2 = y2
	cache.opts = lineOpts
	c.listCache.append(&cache)
''','''	c.listCache.append(&cacheContentLine{
		pageHeight: c.getRoot().curr.pageSize.H,
		x1:         x1,
		y1:         y1,
		x2:         x2,
		y2:         y2,
		opts:       lineOpts,
	})
''')])
s('benign line helper',[(L,LN,'	fmt.Fprintf(w, "%0.2f %0.2f m %0.2f %0.2f l S\\n", c.x1, c.flip(c.y1), c.x2, c.flip(c.y2))\n'),(L,'func (c *cacheContentLine) write','func (c *cacheContentLine) flip(y float64) float64 { return c.pageHeight - y }\n\nfunc (c *cacheContentLine) write')])
UL='''		X:          x,
		Y:          y + hght,
'''
s('bug ul',[(G,UL,'		X:          x,\n		Y:          y,\n')])
s('bug ul wdth',[(G,UL,'		X:          x,\n		Y:          y + wdth,\n')])
s('bug opts ul',[(G,'	opts.Y += opts.H\n','	opts.Y -= opts.H\n')])
s('bug opts ul w',[(G,'	opts.Y += opts.H\n','	opts.Y += opts.W\n')])
s('bug opts ul gone',[(G,'	opts.Y += opts.H\n','')])
s('benign opts ul',[(G,'	opts.Y += opts.H\n','	opts.Y = opts.Rect.H + opts.Y\n')])
s('benign opts bottom',[(G,'	opts.Y += opts.H\n','	bottom := opts.Y + opts.H\n	opts.Y = bottom\n')])
s('bug style swap',[(G,'''			H: hght,
			W: wdth,
		},
		PaintStyle: parseStyle(style),
	}
	gp.RectFromLowerLeftWithOpts(opts)''','''			H: wdth,
			W: hght,
		},
		PaintStyle: parseStyle(style),
	}
	gp.RectFromLowerLeftWithOpts(opts)''')])
s('bug style corner',[(G,'	gp.RectFromUpperLeftWithOpts(opts)','	gp.RectFromLowerLeftWithOpts(opts)')])
RE='	stream += fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f re %s\\n", c.x, c.pageHeight-c.y, c.width, c.height, c.style)\n'
s('bug re',[(R,RE,RE.replace('c.pageHeight-c.y','c.pageHeight-c.y-c.height'))])
s('bug re style only F',[(R,RE,'	h := c.height\n	if c.style == FillPaintStyle {\n		h = -h\n	}\n'+RE.replace('c.height','h'))])
s('bug re swapped',[(R,RE,RE.replace('c.width, c.height','c.height, c.width'))])
s('bug new rect',[(R,'height:           rectOpts.H','height:           rectOpts.W')])
s('benign re upper',[(R,RE,RE.replace('c.pageHeight-c.y,','c.pageHeight-c.y+c.height,').replace('c.width, c.height','c.width, -c.height'))])
s('benign re lines',[(R,RE,'	b := c.pageHeight - c.y\n	stream += fmt.Sprintf("%0.2f %0.2f m %0.2f %0.2f l %0.2f %0.2f l %0.2f %0.2f l h %s\\n", c.x, b, c.x+c.width, b, c.x+c.width, b+c.height, c.x, b+c.height, c.style)\n')])
s('bug re lines',[(R,RE,'	b := c.pageHeight - c.y\n	stream += fmt.Sprintf("%0.2f %0.2f m %0.2f %0.2f l %0.2f %0.2f l %0.2f %0.2f l h %s\\n", c.x, b, c.x+c.width, b, c.x, b+c.height, c.x+c.width, b+c.height, c.style)\n')])
s('benign rect buffer',[(R,'	stream := "q\\n"\n','	var buf bytes.Buffer\n	buf.WriteString("q\\n")\n'),(R,'		stream += fmt.Sprintf("/GS','		fmt.Fprintf(&buf, "/GS'),(R,RE,RE.replace('stream += fmt.Sprintf(','fmt.Fprintf(&buf, ')),(R,'	stream += "Q\\n"\n','	buf.WriteString("Q\\n")\n'),(R,'	if _, err := io.WriteString(w, stream); err','	if _, err := buf.WriteTo(w); err'),(R,'import (\n','import (\n	"bytes"\n')])
s('bug oval k',[(O,'cp := 0.55228 ','cp := 0.65228 ')])
s('benign oval k',[(O,'cp := 0.55228 ','cp := 0.552284 ')])
s('bug oval quarter',[(O,'v2[0], v2[1]-(y2-y1)/2*cp, v2[0], v2[1],','v2[0], v2[1]+(y2-y1)/2*cp, v2[0], v2[1],')])
s('bug oval center',[(O,'v4 := [2]float64{x1, h - (y1 + (y2-y1)/2)}','v4 := [2]float64{x1, h - (y1 + (y2-y1)/3)}')])
s('bug oval last',[(O,'v1[0]-(x2-x1)/2*cp, v1[1], v1[0], v1[1]','v1[0]-(y2-y1)/2*cp, v1[1], v1[0], v1[1]')])
s('benign oval vars',[(O,'	cp := 0.55228 ','	mx := (x1 + x2) / 2\n	my := (y1 + y2) / 2\n	cp := 0.55228 '),(O,'v1 := [2]float64{x1 + (x2-x1)/2, h - y2}','v1 := [2]float64{mx, h - y2}'),(O,'v2 := [2]float64{x2, h - (y1 + (y2-y1)/2)}','v2 := [2]float64{x2, h - my}')])
OB='''	fmt.Fprintf(w, "%0.2f %0.2f m\\n", v1[0], v1[1])
	fmt.Fprintf(w,
		"%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c\\n",
		v1[0]+(x2-x1)/2*cp, v1[1], v2[0], v2[1]-(y2-y1)/2*cp, v2[0], v2[1],
	)
'''
s('benign oval rx',[(O,OB,'''	rx, ry := (x2-x1)/2*cp, (y2-y1)/2*cp
	fmt.Fprintf(w, "%0.2f %0.2f m\\n", v1[0], v1[1])
	fmt.Fprintf(w,
		"%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c\\n",
		v1[0]+rx, v1[1], v2[0], v2[1]-ry, v2[0], v2[1],
	)
''')])
OW=open('/repo/'+O).read(); OW=OW[OW.index('	cp := 0.55228'):OW.index('	return nil')]
s('benign oval loop',[(O,OW,'''	cp := 0.55228
	v := [4][2]float64{
		{x1 + (x2-x1)/2, h - y2},
		{x2, h - (y1 + (y2-y1)/2)},
		{x1 + (x2-x1)/2, h - y1},
		{x1, h - (y1 + (y2-y1)/2)},
	}
	cx, cy := (x1+x2)/2, h-(y1+y2)/2
	fmt.Fprintf(w, "%0.2f %0.2f m\\n", v[0][0], v[0][1])
	for i := 0; i < 4; i++ {
		a, b := v[i], v[(i+1)%4]
		fmt.Fprintf(w, "%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c\\n",
			a[0]+(b[0]-cx)*cp, a[1]+(b[1]-cy)*cp, b[0]+(a[0]-cx)*cp, b[1]+(a[1]-cy)*cp, b[0], b[1])
	}
	io.WriteString(w, "S\\n")

''')])
s('benign oval points',[(O,OW,OW.replace('[2]float64{','Point{').replace('v1[0]','v1.X').replace('v2[0]','v2.X').replace('v3[0]','v3.X').replace('v4[0]','v4.X').replace('v1[1]','v1.Y').replace('v2[1]','v2.Y').replace('v3[1]','v3.Y').replace('v4[1]','v4.Y'))])
CV='		x1, h-y1, x2, h-y2, x3, h-y3,\n'
s('bug curve order',[(V,CV,'		x2, h-y2, x1, h-y1, x3, h-y3,\n')])
s('bug curve wiring',[(C,'	cache.x3 = x3\n	cache.y3 = y3\n','	cache.x3 = x3\n	cache.y3 = y2\n')])
s('bug curve fill style',[(V,'	if style == "F" {\n		op = "f"','	if style == "F" {\n		op = "f"\n'),(V,'	//cp := 0.55228\n','	if style == "DF" {\n		x3 = x0\n	}\n')])
s('bug curve units',[(G,'AppendStreamCurve(x0, y0, x1, y1, x2, y2, x3, y3, style)','AppendStreamCurve(x0, y0, x1, y1, x2, y2, x3, y0, style)')])
s('benign curve',[(V,'	h := c.pageHeight\n	x0 := c.x0\n	y0 := c.y0\n','	h := c.pageHeight\n	x0, y0 := c.x0, c.y0\n')])
PW='	for i, point := range c.points {\n		fmt.Fprintf(w, "%.2f %.2f", point.X, c.pageHeight-point.Y)\n		if i == 0 {\n'
s('bug poly last',[(P,PW,PW.replace('range c.points {','range c.points[:len(c.points)-1] {'))])
s('bug poly first',[(P,'		if i == 0 {','		if i <= 1 {')])
s('bug poly xy',[(P,PW,PW.replace('point.X, c.pageHeight-point.Y','point.Y, c.pageHeight-point.X'))])
s('bug poly S',[(P,'w, " s\\n"','w, " S\\n"')])
s('benign poly B',[(P,'w, " b\\n"','w, " h B\\n"')])
s('benign poly index',[(P,PW,'	for i := 0; i < len(c.points); i++ {\n		point := c.points[i]\n		fmt.Fprintf(w, "%.2f %.2f", point.X, c.pageHeight-point.Y)\n		if i == 0 {\n')])
s('benign poly op',[(P,PW+'''			fmt.Fprintf(w, " m ")
		} else {
			fmt.Fprintf(w, " l ")
		}

	}
''','''	op := "m"
	for _, point := range c.points {
		fmt.Fprintf(w, "%.2f %.2f %s ", point.X, c.pageHeight-point.Y, op)
		op = "l"
	}
''')])
PG='''	var pointReals []Point
	for _, p := range points {
		x := p.X
		y := p.Y
		gp.UnitsToPointsVar(&x, &y)
		pointReals = append(pointReals, Point{X: x, Y: y})
	}
	gp.getContent().AppendStreamPolygon(pointReals, style, opts)
'''
s('bug polygon reals',[(G,PG,PG.replace('Point{X: x, Y: y}','Point{X: x, Y: x}'))])
s('bug polygon dup',[(G,PG,PG.replace('range points {\n','range points {\n		if len(pointReals) > 0 && pointReals[len(pointReals)-1].X == p.X {\n			continue\n		}\n'))])
s('benign polygon make',[(G,PG,PG.replace('	var pointReals []Point\n','	pointReals := make([]Point, 0, len(points))\n'))])
s('benign polygon set',[(G,PG,'''	pointReals := make([]Point, len(points))
	for i, p := range points {
		gp.UnitsToPointsVar(&p.X, &p.Y)
		pointReals[i] = p
	}
	gp.getContent().AppendStreamPolygon(pointReals, style, opts)
''')])
s('benign polygon helper',[(G,PG,'	gp.getContent().AppendStreamPolygon(gp.pointsOf(points), style, opts)\n'),(G,'// ClipPolygon sets','''func (gp *GoPdf) pointsOf(points []Point) []Point {
	var out []Point
	for _, p := range points {
		out = append(out, Point{X: gp.UnitsToPoints(p.X), Y: gp.UnitsToPoints(p.Y)})
	}
	return out
}

// ClipPolygon sets''')])
s('benign polygon index',[(G,PG,PG.replace('for _, p := range points {\n','for i := range points {\n		p := points[i]\n'))])
RC='''		points = append(points, Point{X: x0, Y: y0})
		points = append(points, Point{X: x1, Y: y0})
		points = append(points, Point{X: x1, Y: y1})
		points = append(points, Point{X: x0, Y: y1})
'''
s('bug rectangle',[(G,RC,RC.replace('Point{X: x1, Y: y1}','Point{X: x1, Y: y0}'))])
s('bug rectangle order',[(G,RC,RC.replace('Point{X: x1, Y: y1}','Q').replace('Point{X: x0, Y: y1}','Point{X: x1, Y: y1}').replace('Q','Point{X: x0, Y: y1}'))])
s('benign rectangle lit',[(G,'		points := []Point{}\n'+RC,'		points := []Point{{X: x0, Y: y0}, {X: x1, Y: y0}, {X: x1, Y: y1}, {X: x0, Y: y1}}\n')])
s('benign rectangle one',[(G,RC,'		points = append(points, Point{X: x0, Y: y0}, Point{X: x1, Y: y0}, Point{X: x1, Y: y1}, Point{X: x0, Y: y1})\n')])
s('bug clip',[(CL,'		if i == 0 { ','		if i != 1 { ')])
s('bug clip y',[(CL,'c.pageHeight-p.Y','p.Y')])
s('bug width',[(W,'c.width','c.width/2')])
s('bug width twice',[(C,'	cache.width = w\n','	cache.width = w * 2\n')])
