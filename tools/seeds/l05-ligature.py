PROP='L05'
NEEDS='a text with the letters f and i next to each other'
BREAKS='the ligature put in their place is not registered with the font: the letters vanish'
EDITS=[('list_cache_content.go','	cacheFont.text += text\n','	cacheFont.text += strings.ReplaceAll(text, "fi", "\\ufb01")\n'),
('list_cache_content.go','import "io"\n','import (\n	"io"\n	"strings"\n)\n')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	p.SetX(100)
	if err := p.Text("find"); err != nil {
		t.Fatal(err)
	}
	x := p.GetX()
	w, err := p.MeasureTextWidth("nd")
	if err != nil {
		t.Fatal(err)
	}
	if x < 100+w+1 {
		t.Fatal("the first letters take no room", x, w)
	}
}
'''
