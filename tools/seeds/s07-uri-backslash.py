PROP='S07'
NEEDS='a link address that ends in a backslash'
BREAKS='the backslash escapes the closing parenthesis of the URI string'
EDITS=[('annot_obj.go','''	url = strings.Replace(url, "\\\\", "\\\\\\\\", -1)
''','''	if strings.ContainsAny(url, "()") {
		url = strings.Replace(url, "\\\\", "\\\\\\\\", -1)
	}
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	p.AddExternalLink("http://x/a\\\\", 10, 10, 20, 20)
	b := string(seedBytes(t, p))
	if !strings.Contains(b, `/URI (http://x/a\\\\)>>`) {
		t.Fatal("backslash not escaped")
	}
}
'''
