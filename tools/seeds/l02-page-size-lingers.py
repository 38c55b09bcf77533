PROP='L02'
NEEDS='a page with its own size, followed by a page with the default size'
BREAKS='what is drawn on the second page is placed by the height of the first'
EDITS=[('gopdf.go','''	} else { //use default
		gp.curr.pageSize = &gp.config.PageSize
''','''	} else { //use default
		if gp.curr.pageSize == nil {
			gp.curr.pageSize = &gp.config.PageSize
		}
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{PageSize: Rect{W: 300, H: 400}})
	p.SetNoCompression()
	p.AddPageWithOption(PageOption{PageSize: &Rect{W: 300, H: 700}})
	p.Line(10, 10, 20, 10)
	p.AddPage()
	p.Line(10, 30, 20, 30)
	if b := string(seedBytes(t, p)); !strings.Contains(b, "10.00 370.00 m 20.00 370.00 l") {
		t.Fatal("the line on the second page is not 30 below its top")
	}
}
'''
