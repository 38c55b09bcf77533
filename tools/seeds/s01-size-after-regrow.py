PROP='S01'
NEEDS='password protection, and pages added between two outputs of the same document'
BREAKS='the trailer Size is taken from the encryption object, which is last only the first time a document is written'
EDITS=[('gopdf.go','''	fmt.Fprintf(w, "/Size %d\\n", max+1)
''','''	size := max + 1
	if gp.isUseProtection() {
		size = gp.encryptionObjID + 1
	}
	fmt.Fprintf(w, "/Size %d\\n", size)
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t, Config{PageSize: *PageSizeA4, Protection: PDFProtectionConfig{UseProtection: true, OwnerPass: []byte("o"), UserPass: []byte("u")}})
	check := func() {
		b := seedBytes(t, p)
		m := regexp.MustCompile(`/Size (\\d+)`).FindSubmatch(b)
		n, _ := strconv.Atoi(string(m[1]))
		e := regexp.MustCompile(`xref\\n0 (\\d+)`).FindSubmatch(b)
		k, _ := strconv.Atoi(string(e[1]))
		if n != k {
			t.Fatalf("Size %d, %d entries", n, k)
		}
	}
	p.AddPage()
	p.Text("one")
	check()
	p.AddPage()
	p.Text("two")
	check()
}
'''
