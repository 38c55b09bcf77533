PROP='S06'
NEEDS='Polygon with a style other than D, F, FD or DF (lower case, for example)'
BREAKS='the path is started but never painted, so the following operators are misread'
EDITS=[('cache_content_polygon.go','''	} else {
		fmt.Fprintf(w, " s\\n")
	}
''','''	} else if c.style == "D" || c.style == "" {
		fmt.Fprintf(w, " s\\n")
	}
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	p.Polygon([]Point{{X: 1, Y: 1}, {X: 50, Y: 1}, {X: 50, Y: 50}}, "d")
	b := string(seedBytes(t, p))
	if !regexp.MustCompile(` l\\s+[sSfFbB]\\s`).MatchString(b) {
		t.Fatal("path not painted")
	}
}
'''
