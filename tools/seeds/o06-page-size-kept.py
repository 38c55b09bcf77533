PROP='O06'
NEEDS='AddPageWithOption with a PageSize, in a document in points, and the size structure changed before output'
BREAKS='the document keeps the pointer to the size of the caller, so the page written has whatever size the structure has at output'
EDITS=[('rect.go','''	unitCfg := defaultUnitConfig{Unit: t}
	if rect.unitOverride.getUnit() != UnitUnset {
		unitCfg = rect.unitOverride
	}

	r = &Rect{W: rect.W, H: rect.H}
	unitsToPointsVar(unitCfg, &r.W, &r.H)
	return
''','''	unitCfg := defaultUnitConfig{Unit: t}
	if rect.unitOverride.getUnit() != UnitUnset {
		unitCfg = rect.unitOverride
	} else if t == UnitUnset || t == UnitPT {
		// already in points
		return rect
	}

	r = &Rect{W: rect.W, H: rect.H}
	unitsToPointsVar(unitCfg, &r.W, &r.H)
	return
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	size := &Rect{W: 300, H: 400}
	p.AddPageWithOption(PageOption{PageSize: size})
	size.W = 77
	b := string(seedBytes(t, p))
	if !regexp.MustCompile(`MediaBox \\[ ?0 0 300`).MatchString(b) {
		t.Fatalf("page size follows the structure of the caller: %s", regexp.MustCompile(`MediaBox[^\\n]*`).FindAllString(b, -1))
	}
}
'''
