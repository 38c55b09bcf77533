PROP='F07'
NEEDS='an oval that is not a circle'
BREAKS='one quarter of the oval is bent as a circle of its height would be'
EDITS=[('cache_content_oval.go','v4[0], v4[1]-(y2-y1)/2*cp, v1[0]-(x2-x1)/2*cp, v1[1], v1[0], v1[1],','v4[0], v4[1]-(y2-y1)/2*cp, v1[0]-(y2-y1)/2*cp, v1[1], v1[0], v1[1],')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	p.Oval(100, 100, 300, 140)
	s := string(seedBytes(t, p))
	f := strings.Fields(s[:strings.Index(s, " c S")])
	var x float64
	fmt.Sscan(f[len(f)-4], &x)
	if x < 144 || x > 145.5 {
		t.Errorf("the last curve is bent towards %.2f", x)
	}
}
'''
