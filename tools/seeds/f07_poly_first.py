PROP='F07'
NEEDS='a polygon drawn while a transparency is set'
BREAKS='the path begins with the second corner: a line is drawn before there is a point'
EDITS=[('cache_content_polygon.go','''		if i == 0 {
''','''		if i == len(c.opts.extGStateIndexes) {
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	for _, clear := range []bool{false, true} {
		p := seedDoc(t)
		p.AddPage()
		if clear {
			if err := p.SetTransparency(Transparency{Alpha: 0.5, BlendModeType: Multiply}); err != nil {
				t.Fatal(err)
			}
		}
		p.Polygon([]Point{{X: 10, Y: 10}, {X: 90, Y: 10}, {X: 50, Y: 70}}, "F")
		s := string(seedBytes(t, p))
		m, l := strings.Index(s, " m "), strings.Index(s, " l ")
		if m < 0 || l < m {
			t.Errorf("a line comes before the first point (transparency: %v)", clear)
		}
	}
}
'''
