PROP='O02'
NEEDS='password protection, output once, then pages added, then output again'
BREAKS='a protected document is prepared for output only once, so pages added after the first output are missing from the page tree'
EDITS=[('gopdf.go','''	gp.prepare()
	err = gp.Close()
''','''	if gp.encryptionObjID == 0 {
		gp.prepare()
	}
	err = gp.Close()
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t, Config{PageSize: *PageSizeA4, Protection: PDFProtectionConfig{UseProtection: true, OwnerPass: []byte("o"), UserPass: []byte("u")}})
	for want := 1; want < 4; want++ {
		p.AddPage()
		p.Text("page")
		m := regexp.MustCompile(`/Count (\\d+)`).FindSubmatch(seedBytes(t, p))
		n, _ := strconv.Atoi(string(m[1]))
		if n != want {
			t.Fatalf("%d pages, want %d", n, want)
		}
	}
}
'''
