PROP='S05'
NEEDS='a protected document'
BREAKS='the Length of an encrypted content stream counts the line end written after it by the other branch as well'
EDITS=[('content_obj.go','''	if _, err := fmt.Fprintf(w, "/Length %d\\n", buff.Len()); err != nil {
''','''	length := buff.Len()
	if c.protection() != nil && !isFlate {
		length = length + 2
	}
	if _, err := fmt.Fprintf(w, "/Length %d\\n", length); err != nil {
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t, Config{PageSize: *PageSizeA4, Protection: PDFProtectionConfig{UseProtection: true, OwnerPass: []byte("o"), UserPass: []byte("u")}})
	p.AddPage()
	p.Text("x")
	b := seedBytes(t, p)
	for _, m := range regexp.MustCompile(`(?s)/Length (\\d+)\\n>>\\nstream\\n(.*?)endstream`).FindAllSubmatch(b, -1) {
		n, _ := strconv.Atoi(string(m[1]))
		if len(m[2]) != n && len(m[2]) != n+1 && len(m[2]) != n+2 || len(m[2]) == n && false {
			t.Fatalf("Length %d, data %d", n, len(m[2]))
		}
		if n > 0 && len(m[2]) < n+1 && m[2][len(m[2])-1] == 10 {
			t.Fatalf("Length %d, data %d", n, len(m[2]))
		}
	}
}
'''
