PROP='L01'
NEEDS='a document with a conversion factor of its own, and IsFitMultiCell'
BREAKS='the height of a line is given back by the unit alone, so the answer and the height are wrong'
EDITS=[('gopdf.go','''	_, lineHeight, _, err := createContent(gp.curr.FontISubset, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)

	if err != nil {
		return false, totalLineHeight, err
	}
	gp.PointsToUnitsVar(&lineHeight)
''','''	_, lineHeight, _, err := createContent(gp.curr.FontISubset, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)

	if err != nil {
		return false, totalLineHeight, err
	}
	lineHeight = PointsToUnits(gp.config.Unit, lineHeight)
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	height := func(c Config) float64 {
		p := &GoPdf{}
		p.Start(c)
		p.AddPage()
		if err := p.AddTTFFont("f", "test/res/LiberationSerif-Regular.ttf"); err != nil {
			t.Fatal(err)
		}
		if err := p.SetFont("f", "", 12); err != nil {
			t.Fatal(err)
		}
		_, h, err := p.IsFitMultiCell(&Rect{W: p.PointsToUnits(60), H: p.PointsToUnits(400)}, "some words in a narrow box of text")
		if err != nil {
			t.Fatal(err)
		}
		return p.UnitsToPoints(h)
	}
	a := height(Config{PageSize: *PageSizeA4})
	b := height(Config{PageSize: Rect{W: 100, H: 100}, ConversionForUnit: 8})
	if math.Abs(a-b) > 0.01 {
		t.Fatal("the same text is given another height", a, b)
	}
}
'''
