import sys,os
os.environ['MUT_ID']='L03'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
C='config.go'; R='rect.go'; B='box.go'; G='gopdf.go'; P='page_sizes.go'
s('cm back by 2.45',[(C,'return u / conversionUnitCM','return u / (72.0/2.45)')])
s('px missing back',[(C,'	case UnitPX:\n		return u / conversionUnitPX\n','')])
s('px missing forth',[(C,'	case UnitPX:\n		return u * conversionUnitPX\n','')])
s('mm factor',[(C,'conversionUnitMM = 72.0 / 25.4','conversionUnitMM = 72.0 / 25.0')])
s('in multiplied back',[(C,'return u / conversionUnitIN','return u * conversionUnitIN')])
s('custom back',[(C,'return u / unitCfg.getConversionForUnit()','return u * unitCfg.getConversionForUnit()')])
s('custom only when unset',[(C,'''	if unitCfg.getConversionForUnit() != 0 {
		return u / unit''','''	if unitCfg.getConversionForUnit() != 0 && unitCfg.getUnit() == UnitUnset {
		return u / unit''')])
s('var skips last',[(C,'''	for x := 0; x < len(u); x++ {
		*u[x] = pointsToUnits''','''	for x := 0; x < len(u)-1; x++ {
		*u[x] = pointsToUnits''')])
s('var one',[(C,'''	for x := 0; x < len(u); x++ {
		*u[x] = unitsToPoints(unitCfg, *u[x])''','''	for x := 0; x < len(u); x++ {
		*u[x] = unitsToPoints(unitCfg, *u[0])''')])
s('var wrong dir',[(C,'	pointsToUnitsVar(defaultUnitConfig{Unit: t}, u...)','	unitsToPointsVar(defaultUnitConfig{Unit: t}, u...)')])
s('gp unit only',[(G,'	return pointsToUnits(gp.config, u)','	return PointsToUnits(gp.config.Unit, u)')])
s('gp var dir',[(G,'	pointsToUnitsVar(gp.config, u...)','	unitsToPointsVar(gp.config, u...)')])
s('rect override ignored',[(R,'''	if rect.unitOverride.getUnit() != UnitUnset {
		unitCfg = rect.unitOverride
	}

	r = &Rect{W: rect.W, H: rect.H}
	pointsToUnitsVar(''','''	r = &Rect{W: rect.W, H: rect.H}
	pointsToUnitsVar(''')])
s('rect H twice',[(R,'	r = &Rect{W: rect.W, H: rect.H}\n	unitsToPointsVar(unitCfg, &r.W, &r.H)\n	return\n}\n\nfunc','	r = &Rect{W: rect.W, H: rect.W}\n	unitsToPointsVar(unitCfg, &r.W, &r.H)\n	return\n}\n\nfunc')])
s('box bottom missed',[(B,'''	unitsToPointsVar(unitCfg, &b.Left, &b.Top, &b.Right, &b.Bottom)
	return
}

func''','''	unitsToPointsVar(unitCfg, &b.Left, &b.Top, &b.Right)
	return
}

func''')])
s('box swap',[(B,'		Right:  box.Right,\n','		Right:  box.Left,\n',1)])
s('rect in place',[(R,'	r = &Rect{W: rect.W, H: rect.H}\n	pointsToUnitsVar','	r = rect\n	pointsToUnitsVar')])
s('page size plain',[(P,'var PageSizeB4 = &Rect{W: 729, H: 1032, unitOverride: defaultUnitConfig{Unit: UnitPT}}','var PageSizeB4 = &Rect{W: 729, H: 1032}')])
s('page size mm',[(P,'var PageSizeB4 = &Rect{W: 729, H: 1032, unitOverride: defaultUnitConfig{Unit: UnitPT}}','var PageSizeB4 = &Rect{W: 257, H: 364, unitOverride: defaultUnitConfig{Unit: UnitMM}}')])
s('config getter',[(C,'func (c Config) getConversionForUnit() float64 {\n	return c.ConversionForUnit','func (c Config) getConversionForUnit() float64 {\n	return c.K')])
s('start default unit',[(G,'	gp.config = config\n','	gp.config = config\n	if gp.config.Unit == UnitPX {\n		gp.config.ConversionForUnit = 0\n	}\n')])
# benign
s('benign table',[(C,'''	switch unitCfg.getUnit() {
	case UnitPT:
		return u * conversionUnitPT
	case UnitMM:
		return u * conversionUnitMM
	case UnitCM:
		return u * conversionUnitCM
	case UnitIN:
		return u * conversionUnitIN
	case UnitPX:
		return u * conversionUnitPX
	default:
		return u
	}
}
''','''	if f, ok := pointsPerUnit[unitCfg.getUnit()]; ok {
		return f * u
	}
	return u
}

var pointsPerUnit = map[int]float64{
	UnitPT: conversionUnitPT,
	UnitMM: conversionUnitMM,
	UnitCM: conversionUnitCM,
	UnitIN: conversionUnitIN,
	UnitPX: conversionUnitPX,
}
''')])
s('benign factor func',[(C,'''	if unitCfg.getConversionForUnit() != 0 {
		return u / unitCfg.getConversionForUnit()
	}
	switch unitCfg.getUnit() {
	case UnitPT:
		return u / conversionUnitPT
	case UnitMM:
		return u / conversionUnitMM
	case UnitCM:
		return u / conversionUnitCM
	case UnitIN:
		return u / conversionUnitIN
	case UnitPX:
		return u / conversionUnitPX
	default:
		return u
	}
}
''','''	if u == 0 {
		return 0
	}
	return u * (1 / factorOf(unitCfg))
}

func factorOf(c unitConfigurator) float64 {
	f := c.getConversionForUnit()
	if f == 0 {
		f = [...]float64{1, 1, conversionUnitMM, conversionUnitCM, conversionUnitIN, conversionUnitPX}[c.getUnit()]
	}
	return f
}
''')])
s('benign range',[(C,'''	for x := 0; x < len(u); x++ {
		*u[x] = unitsToPoints(unitCfg, *u[x])''','''	for i := len(u) - 1; i >= 0; i-- {
		p := u[i]
		*p = unitsToPoints(unitCfg, *p)''')])
s('benign rect direct',[(R,'	r = &Rect{W: rect.W, H: rect.H}\n	pointsToUnitsVar(unitCfg, &r.W, &r.H)\n','	r = &Rect{}\n	r.W = pointsToUnits(unitCfg, rect.W)\n	r.H = pointsToUnits(unitCfg, rect.H)\n')])
s('benign helper',[(G,'	pointsToUnitsVar(gp.config, u...)','	for _, v := range u {\n		*v = gp.PointsToUnits(*v)\n	}')])
s('benign page size fn',[(P,'var PageSizeB4 = &Rect{W: 729, H: 1032, unitOverride: defaultUnitConfig{Unit: UnitPT}}','var PageSizeB4 = inPoints(729, 1032)\n\nfunc inPoints(w, h float64) *Rect {\n	return &Rect{W: w, H: h, unitOverride: defaultUnitConfig{Unit: UnitPT}}\n}')])
