PROP='S02'
NEEDS='an anchor set after something was drawn on its page, and an internal link to it'
BREAKS='the destination of the link names the content stream instead of the page'
EDITS=[('gopdf.go','gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}','''page := gp.curr.IndexOfPageObj
	if gp.indexOfContent > page {
		page = gp.indexOfContent
	}
	gp.anchors[name] = anchorOption{page, y}''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	p.Text("one")
	p.SetAnchor("a")
	p.AddInternalLink("a", 10, 10, 20, 20)
	b := seedBytes(t, p)
	m := regexp.MustCompile(`/Dest \\[(\\d+) 0 R`).FindSubmatch(b)
	n, _ := strconv.Atoi(string(m[1]))
	if o := seedObjects(b)[n]; !strings.Contains(o, "/Type /Page") {
		t.Fatalf("destination %d is %q", n, o)
	}
}
'''
