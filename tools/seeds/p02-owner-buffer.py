PROP='P02'
NEEDS='an owner password of length zero that is the start of a longer buffer of the caller'
BREAKS='the random owner password is generated into the memory behind the empty password of the caller'
EDITS=[('pdf_protection.go','''		ownerPass = p.randomPass(24)
''','''		ownerPass = append(ownerPass, p.randomPass(24)...)
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	buf := []byte("user password, owner password and more than that")
	own := append([]byte{}, buf...)
	var a PDFProtection
	if err := a.SetProtection(PermissionsPrint, buf[:4], buf[5:5]); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(buf, own) {
		t.Fatalf("the buffer of the passwords changed: %q", buf)
	}
}
'''
