PROP='O07'
NEEDS='an output that fails while the content of a page is being compressed, and two users of the pool afterwards'
BREAKS='the error path gives the scratch buffer back although the deferred call does so again: the pool then hands the same buffer to two users'
EDITS=[('content_obj.go','''			// should never happen...
			return err
''','''			// should never happen...
			PutBuffer(buff)
			return err
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		p := seedDoc(t)
		p.AddPage()
		p.Text("pool")
		p.compressLevel = 42 // not a level: compressing fails
		if _, err := p.GetBytesPdfReturnErr(); err == nil {
			t.Fatal("no error")
		}
		a, b := GetBuffer(), GetBuffer()
		if a == b {
			t.Fatal("one buffer was handed to two users")
		}
		PutBuffer(a)
		PutBuffer(b)
	}
}
'''
