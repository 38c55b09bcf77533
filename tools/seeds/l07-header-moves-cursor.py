PROP='L07'
NEEDS='a header that moves the cursor and no footer'
BREAKS='the page does not start at its margins but where the header left the cursor'
EDITS=[('gopdf.go','''		gp.headerFunc()
		gp.resetCurrXY()
	}

	if gp.footerFunc != nil {
		gp.footerFunc()
''','''		gp.headerFunc()
	}

	if gp.footerFunc != nil {
		gp.resetCurrXY()
		gp.footerFunc()
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{PageSize: Rect{W: 300, H: 400}})
	p.SetMargins(11, 12, 13, 14)
	p.AddHeader(func() { p.SetXY(100, 200) })
	p.AddPage()
	if p.GetX() != 11 || p.GetY() != 12 {
		t.Fatalf("the page starts at %v %v", p.GetX(), p.GetY())
	}
}
'''
