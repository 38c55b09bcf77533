PROP='L02'
NEEDS='a rotation on a page that has a size of its own'
BREAKS='what is rotated turns about a point placed by the default page height'
EDITS=[('content_obj.go','''	cache.isReset = false
	cache.pageHeight = c.getRoot().curr.pageSize.H
''','''	cache.isReset = false
	cache.pageHeight = c.getRoot().config.PageSize.H
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{PageSize: Rect{W: 300, H: 400}})
	p.SetNoCompression()
	p.AddPageWithOption(PageOption{PageSize: &Rect{W: 300, H: 700}})
	p.Rotate(90, 100, 100)
	p.Line(100, 100, 200, 100)
	p.RotateReset()
	if b := string(seedBytes(t, p)); !strings.Contains(b, "1 100.00 600.00 cm") && !strings.Contains(b, "100.00 600.00 cm") {
		t.Fatal("the rotation is not about the given point")
	}
}
'''
