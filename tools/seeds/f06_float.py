PROP='F06'
NEEDS='a cell with Float: Right | Bottom'
BREAKS='the next text does not begin to the right of such a cell'
EDITS=[('list_cache_content.go','cacheFont.cellOpt.Float&Right == Right ||','cacheFont.cellOpt.Float == Right ||')]
TEST='''
func TestSeedDemo(t *testing.T) {
	for _, f := range []int{Right, Bottom, Right | Bottom} {
		p := seedDoc(t)
		p.AddPage()
		p.SetXY(50, 60)
		if err := p.CellWithOption(&Rect{W: 100, H: 20}, "x", CellOption{Float: f}); err != nil {
			t.Fatal(err)
		}
		wx, wy := 50.0, 60.0
		if f&Right != 0 {
			wx = 150
		}
		if f&Bottom != 0 {
			wy = 80
		}
		if p.GetX() != wx || p.GetY() != wy {
			t.Errorf("float %d: goes on at %.1f %.1f, not at %.1f %.1f", f, p.GetX(), p.GetY(), wx, wy)
		}
	}
}
'''
