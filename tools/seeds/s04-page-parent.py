PROP='S04'
NEEDS='a page whose options set a trim box'
BREAKS='such a page has no Parent entry'
EDITS=[('page_obj.go','''	io.WriteString(w, "  /Parent 2 0 R\\n")
''','''	if !p.pageOption.isTrimBoxSet() {
		io.WriteString(w, "  /Parent 2 0 R\\n")
	}
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPageWithOption(PageOption{PageSize: PageSizeA4, TrimBox: &Box{Left: 1, Top: 1, Right: 5, Bottom: 5}})
	p.Text("x")
	for n, o := range seedObjects(seedBytes(t, p)) {
		if strings.Contains(o, "/Type /Page\\n") && !strings.Contains(o, "/Parent") {
			t.Fatalf("object %d: %q", n, o)
		}
	}
}
'''
