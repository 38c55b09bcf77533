PROP='O06'
NEEDS='ClipPolygon with the same point slice used again afterwards, in a document whose unit is not points'
BREAKS='the conversion to points is done in the memory of the caller\'s slice, so the caller finds its points changed'
EDITS=[('gopdf.go','''func (gp *GoPdf) ClipPolygon(points []Point) {
	var pointReals []Point
''','''func (gp *GoPdf) ClipPolygon(points []Point) {
	pointReals := points[:0]
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{Unit: UnitMM, PageSize: *PageSizeA4})
	p.AddPage()
	pts := []Point{{X: 1, Y: 1}, {X: 50, Y: 1}, {X: 50, Y: 50}}
	p.ClipPolygon(pts)
	if pts[1].X != 50 || pts[2].Y != 50 {
		t.Fatalf("points of the caller changed: %v", pts)
	}
}
'''
