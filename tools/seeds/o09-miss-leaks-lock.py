PROP='O09'
NEEDS='a second transparency that is not yet in the table'
BREAKS='the lock is left held when the entry is missing, so the next call hangs'
EDITS=[('ext_g_state_obj.go','''	extm.syncer.Lock()
	defer extm.syncer.Unlock()

	t, ok := extm.table[key]
	if !ok {
		return ExtGState{}, false
	}

	return t, ok
''','''	extm.syncer.Lock()
	t, ok := extm.table[key]
	if !ok && len(extm.table) > 1 {
		return ExtGState{}, false
	}
	extm.syncer.Unlock()

	return t, ok
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		p := &GoPdf{}
		p.Start(Config{PageSize: *PageSizeA4})
		p.AddPage()
		for i := 0; i < 5; i++ {
			p.SetTransparency(Transparency{Alpha: float64(i) / 10, BlendModeType: NormalBlendMode})
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("SetTransparency hangs")
	}
}
'''
