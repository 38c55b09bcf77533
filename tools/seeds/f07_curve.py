PROP='F07'
NEEDS='a curve whose two control points lie at different heights, drawn and filled'
BREAKS='the control points are taken in the other order'
EDITS=[('content_obj.go','''	cache.style = strings.ToUpper(strings.TrimSpace(style))
	c.listCache.append(&cache)
}

// AppendStreamSetLineWidth''','''	cache.style = strings.ToUpper(strings.TrimSpace(style))
	if cache.style != "" && y1 > y2 {
		cache.x1, cache.x2 = x2, x1
		cache.y1, cache.y2 = y2, y1
	}
	c.listCache.append(&cache)
}

// AppendStreamSetLineWidth''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	p.Curve(10, 10, 30, 90, 60, 20, 100, 40, "DF")
	s := string(seedBytes(t, p))
	f := strings.Fields(s[:strings.Index(s, " c B")])
	if n := len(f); f[n-6] != "30.00" || f[n-4] != "60.00" {
		t.Errorf("the curve is bent towards %s and then %s", f[n-6], f[n-4])
	}
}
'''
