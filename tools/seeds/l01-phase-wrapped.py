PROP='L01'
NEEDS='a dashed line with one dash length and a phase longer than the pattern, in a document whose unit is not the point'
BREAKS='the phase is reduced by the pattern in points before it is converted'
EDITS=[('gopdf.go','''	gp.UnitsToPointsVar(&dashPhase)
''','''	if len(dashes) == 1 && dashes[0] > 0 {
		for dashPhase > 2*dashes[0] {
			dashPhase -= 2 * dashes[0]
		}
	}
	gp.UnitsToPointsVar(&dashPhase)
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{Unit: UnitCM, ConversionForUnit: 0.5, PageSize: Rect{W: 500, H: 500}})
	p.SetNoCompression()
	p.AddPage()
	p.SetCustomLineType([]float64{4}, 5)
	b := string(seedBytes(t, p))
	if !strings.Contains(b, "[2.00] 2.50 d") {
		t.Fatal("the dashes do not start at 5 units")
	}
}
'''
