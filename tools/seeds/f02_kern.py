PROP='F02'
NEEDS='a font file cut inside the kern table, after the left glyph of a pair'
BREAKS='the font loads without an error and with part of its kerning pairs'
EDITS=[('fontmaker/core/ttfparser_kern.go', '\t\tright, err := t.ReadUShort(fd)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n', '\t\tright, err := t.ReadUShort(fd)\n\t\tif err != nil {\n\t\t\t// a pair that is not complete ends the list\n\t\t\tbreak\n\t\t}\n')]
TEST='''
// a font with a kern table of three pairs, the last of them cut short
func cutFont(t *testing.T, drop int) []byte {
	data, err := os.ReadFile("test/res/LiberationSerif-Regular.ttf")
	if err != nil {
		t.Fatal(err)
	}
	data = append([]byte{}, data...)
	k := []byte{0, 0, 0, 1, 0, 0, 0, 32, 0, 1, 0, 3, 0, 12, 0, 1, 0, 6}
	k = append(k, 0, 36, 0, 57, 255, 0, 0, 57, 0, 36, 255, 0, 0, 57, 0, 57, 1, 44)
	n := int(binary.BigEndian.Uint16(data[4:]))
	done := false
	for i := 0; i < n; i++ {
		e := data[12+16*i:]
		switch tag := string(e[:4]); {
		case tag == "kern":
			copy(e, "zzzz")
		case !done && (tag == "GSUB" || tag == "GPOS" || tag == "GDEF"):
			done = true
			copy(e, "kern")
			binary.BigEndian.PutUint32(e[8:], uint32(len(data)))
			binary.BigEndian.PutUint32(e[12:], uint32(len(k)))
		}
	}
	if !done {
		t.Fatal("no table")
	}
	return append(data, k[:len(k)-drop]...)
}

func loadCut(t *testing.T, drop int) error {
	p := &GoPdf{}
	p.Start(Config{PageSize: *PageSizeA4})
	return p.AddTTFFontDataWithOption("k", cutFont(t, drop), TtfOption{UseKerning: true})
}

func TestSeedDemo(t *testing.T) {
	if err := loadCut(t, 0); err != nil {
		t.Fatal(err)
	}
	if err := loadCut(t, 4); err == nil {
		t.Fatal("a font cut inside its kern table was accepted")
	}
}
'''
