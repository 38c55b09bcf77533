PROP='L03'
NEEDS='a named page size (which is in points) converted to units other than points'
BREAKS='the size is scaled as if it were in the unit of the document'
EDITS=[('rect.go','''	unitCfg := defaultUnitConfig{Unit: t}
	if rect.unitOverride.getUnit() != UnitUnset {
		unitCfg = rect.unitOverride
	}

	r = &Rect{W: rect.W, H: rect.H}
	pointsToUnitsVar(unitCfg, &r.W, &r.H)
''','''	r = &Rect{W: rect.W, H: rect.H}
	pointsToUnitsVar(defaultUnitConfig{Unit: t}, &r.W, &r.H)
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	if r := PageSizeA4.PointsToUnits(UnitMM); r.W != 595 || r.H != 842 {
		t.Fatalf("the size became %v", *r)
	}
}
'''
