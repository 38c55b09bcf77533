PROP='F07'
NEEDS='a rectangle from its upper left corner that is not a square, with its own options'
BREAKS='the rectangle is moved by the difference of its sides'
EDITS=[('gopdf.go','''	opts.Y += opts.H
''','''	side := opts.H
	if opts.Transparency != nil {
		side = opts.W
	}
	opts.Y += side
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	err := p.RectFromUpperLeftWithOpts(DrawableRectOptions{Rect: Rect{W: 120, H: 30}, X: 20, Y: 40, PaintStyle: FillPaintStyle, Transparency: &Transparency{Alpha: 0.5, BlendModeType: Multiply}})
	if err != nil {
		t.Fatal(err)
	}
	s := string(seedBytes(t, p))
	f := strings.Fields(s[:strings.Index(s, " re ")])
	if n := len(f); f[n-3] != fmt.Sprintf("%.2f", PageSizeA4.H-70) || f[n-4] != "20.00" {
		t.Errorf("the rectangle begins at %s %s", f[n-4], f[n-3])
	}
}
'''
