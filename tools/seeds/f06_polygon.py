PROP='F06'
NEEDS='a polygon with the style "DF"'
BREAKS='the polygon is only drawn, not filled: "DF" and "FD" are the same'
EDITS=[('cache_content_polygon.go','	} else if c.style == "FD" || c.style == "DF" {\n','	} else if len(c.style) == 2 && c.style[0] == \'F\' {\n')]
TEST='''
func TestSeedDemo(t *testing.T) {
	for style, op := range map[string]string{"": " s\\n", "D": " s\\n", "F": " f\\n", "DF": " b\\n", "FD": " b\\n"} {
		p := seedDoc(t)
		p.AddPage()
		p.Polygon([]Point{{X: 10, Y: 10}, {X: 50, Y: 10}, {X: 30, Y: 60}}, style)
		s := string(seedBytes(t, p))
		if !strings.Contains(s, op+"Q\\n") {
			t.Errorf("style %q is not painted with %q", style, op)
		}
	}
}
'''
