PROP='L01'
NEEDS='a table with borders in a document whose unit is not the point'
BREAKS='the borders of cells overlap their corners by half the line width in points taken as units'
EDITS=[('table.go','	half := borderStyle.Width / 2.0\n','	half := t.pdf.curr.lineWidth / 2.0\n')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{Unit: UnitCM, PageSize: Rect{W: 20, H: 20}})
	p.SetNoCompression()
	p.AddPage()
	l := &tableLayout{pdf: p}
	if err := l.drawBorder(1, 1, 5, 2, BorderStyle{Top: true, Width: 0.2}); err != nil {
		t.Fatal(err)
	}
	// 1 cm - 0.1 cm = 25.51 points
	if b := string(seedBytes(t, p)); !strings.Contains(b, "25.51 ") {
		t.Fatal("the border does not start half its width before the corner")
	}
}
'''
