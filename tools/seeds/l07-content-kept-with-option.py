PROP='L07'
NEEDS='a page with something on it, followed by a page that is given its own size'
BREAKS='the new page does not start a content of its own: what is drawn on it lands on the page before'
EDITS=[('gopdf.go','''	//reset
	gp.indexOfContent = -1
	gp.resetCurrXY()
''','''	//reset
	if opt.isEmpty() {
		gp.indexOfContent = -1
	}
	gp.resetCurrXY()
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{PageSize: Rect{W: 300, H: 400}})
	p.SetNoCompression()
	p.AddPage()
	p.Line(10, 10, 20, 10)
	p.AddPageWithOption(PageOption{PageSize: &Rect{W: 300, H: 400}})
	p.Line(10, 30, 20, 30)
	if b := string(seedBytes(t, p)); strings.Count(b, "/Contents ") != 2 {
		t.Fatalf("%d pages have a content, want 2", strings.Count(b, "/Contents "))
	}
}
'''
