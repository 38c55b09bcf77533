PROP='F06'
NEEDS='a cell with a right border together with a left one but without the top one'
BREAKS='one of the four sides is left out for some combinations of borders'
EDITS=[('cache_content_text.go','	if c.cellOpt.Border&Right == Right {\n','	if c.cellOpt.Border&^Bottom == Right || c.cellOpt.Border&Top == Top && c.cellOpt.Border&Right == Right {\n')]
TEST='''
func bordersDrawn(t *testing.T, border int) int {
	p := seedDoc(t)
	p.AddPage()
	if err := p.CellWithOption(&Rect{W: 100, H: 20}, "x", CellOption{Border: border}); err != nil {
		t.Fatal(err)
	}
	return strings.Count(string(seedBytes(t, p)), " l s\\n")
}

func TestSeedDemo(t *testing.T) {
	sides := []int{Left, Top, Right, Bottom}
	for m := 0; m < 16; m++ {
		border, want := 0, 0
		for i, s := range sides {
			if m>>uint(i)&1 == 1 {
				border |= s
				want++
			}
		}
		if got := bordersDrawn(t, border); got != want {
			t.Errorf("border %d: %d sides are drawn, not %d", border, got, want)
		}
	}
}
'''
