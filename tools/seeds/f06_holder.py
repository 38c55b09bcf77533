PROP='F06'
NEEDS='a placeholder that is filled in at its centre with a text wider than itself'
BREAKS='the text is not centred any more'
EDITS=[('gopdf.go','''			contentText.x = contentText.x + diff/2
''','''			contentText.x = contentText.x + math.Max(diff, 0)/2
''')]
TEST='''
func filledAt(t *testing.T, text string, align int) (x float64) {
	p := seedDoc(t)
	p.AddPage()
	p.SetXY(200, 100)
	if err := p.PlaceHolderText("n", 40); err != nil {
		t.Fatal(err)
	}
	if err := p.FillInPlaceHoldText("n", text, align); err != nil {
		t.Fatal(err)
	}
	s := string(seedBytes(t, p))
	i := strings.Index(s, "BT\\n")
	if i < 0 {
		t.Fatal("no text")
	}
	fmt.Sscanf(s[i+3:], "%f", &x)
	return x
}

func TestSeedDemo(t *testing.T) {
	for _, text := range []string{"a", "a text that is much wider than its place"} {
		l, c, r := filledAt(t, text, Left), filledAt(t, text, Center), filledAt(t, text, Right)
		if d := c - (l+r)/2; d > 0.02 || d < -0.02 {
			t.Errorf("%q: left %.2f, right %.2f, but centre %.2f", text, l, r, c)
		}
	}
}
'''
