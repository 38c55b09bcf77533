PROP='N05'
NEEDS='a rotation by an angle below zero'
BREAKS='the content is turned the other way'
EDITS=[('cache_content_rotate.go','	s := math.Sin(radianAngle)\n','	s := math.Sqrt(math.Max(0, 1-c*c))\n	if math.Mod(radianAngle, 2*math.Pi) > math.Pi {\n		s = -s\n	}\n')]
TEST='''
func TestSeedDemo(t *testing.T) {
	for _, deg := range []float64{0, 30, 90, 135, 200, 300, 400, -30, -200} {
		p := seedDoc(t)
		p.AddPage()
		p.Rotate(deg, 100, 100)
		p.Line(10, 10, 20, 20)
		p.RotateReset()
		s := string(seedBytes(t, p))
		f := strings.Fields(s[:strings.Index(s, " cm")])
		var sin float64
		fmt.Sscan(f[len(f)-5], &sin)
		if d := sin - math.Sin(deg*math.Pi/180); d > 0.0001 || d < -0.0001 {
			t.Errorf("%v degrees: the sine is %v", deg, sin)
		}
	}
}
'''
