PROP='L07'
NEEDS='a last page that nothing is drawn on'
BREAKS='the page is in the file but not in the page tree: a reader shows one page less'
EDITS=[('gopdf.go','''		max := len(gp.pdfObjs)
		for i < max {
			objtype := gp.pdfObjs[i].getType()
''','''		max := len(gp.pdfObjs) - 1
		for i < max {
			objtype := gp.pdfObjs[i].getType()
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{PageSize: Rect{W: 300, H: 400}})
	p.SetNoCompression()
	p.AddPage()
	p.Line(10, 10, 20, 10)
	p.AddPage()
	p.Line(10, 30, 20, 30)
	p.AddPage()
	if b := string(seedBytes(t, p)); !strings.Contains(b, "/Count 3") {
		t.Fatal("the page tree does not count three pages")
	}
}
'''
