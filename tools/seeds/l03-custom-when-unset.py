PROP='L03'
NEEDS='a custom conversion together with a unit, and a call that converts points back'
BREAKS='lengths that are given back are in the unit, not in the custom one'
EDITS=[('config.go','''	if unitCfg.getConversionForUnit() != 0 {
		return u / unitCfg.getConversionForUnit()
	}
''','''	if unitCfg.getUnit() == UnitUnset && unitCfg.getConversionForUnit() != 0 {
		return u / unitCfg.getConversionForUnit()
	}
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{PageSize: *PageSizeA4, Unit: UnitPX, ConversionForUnit: 72.0 / 300.0})
	if v := p.PointsToUnits(p.UnitsToPoints(1000)); v < 999.99 || v > 1000.01 {
		t.Fatalf("1000 units there and back are %v", v)
	}
}
'''
