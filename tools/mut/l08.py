import sys,os
os.environ['MUT_ID']='L08'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
G='gopdf.go'; B='buff.go'; D='pdf_dictionary_obj.go'; A='arabic_helper.go'; P='image_obj_parse.go'; T='fontmaker/core/ttfparser.go'; K='fontmaker/core/ttfparser_kern.go'; F='fontmaker/core/fontmaker.go'; C12='fontmaker/core/ttfparser_cmap_other_format.go'; TB='table.go'; SF='subset_font_obj.go'; PO='page_obj.go'
BREAK="		if lineWidth+runeWidth > width && utf8Texts[i] != '\\n' && len(lineText) > 0 {"
s('bug split unguarded',[(G,BREAK,"		if lineWidth+runeWidth > width && utf8Texts[i] != '\\n' {")])
s('bug split guard on lines',[(G,BREAK,"		if lineWidth+runeWidth > width && utf8Texts[i] != '\\n' && len(lineTexts) > 0 {")])
s('bug split guard only sensitive',[(G,BREAK,"		if lineWidth+runeWidth > width && utf8Texts[i] != '\\n' && (len(lineText) > 0 || opt.HasSeparator()) {")])
s('bug trim le',[(G,'trimIdx < len(*lineText) {','trimIdx <= len(*lineText) {')])
s('benign trim swap',[(G,'trimIdx < len(*lineText) {','len(*lineText) > trimIdx {')])
s('bug indicator zero',[(G,'	if brIdx > 0 {\n','	if brIdx >= 0 {\n'),(G,'	for i := len(text) - 1; i > 0; i-- {\n		if text[i] == bi','	for i := len(text) - 1; i >= 0; i-- {\n		if text[i] == bi'),(G,'		*i -= diff\n','		*i -= diff + 1\n')])
s('bug indicator keeps',[(G,'		*i -= diff\n','		*i -= diff + 1\n'),(G,'	if brIdx > 0 {\n','	if brIdx >= 0 {\n')])
s('bug strict minus 2',[(G,'	*i--\n}','	*i -= 2\n}')])
s('bug newline stays',[(G,"			lineText = lineText[0:0]\n			continue\n		}\n		// end","			lineText = lineText[0:0]\n			if width < 0 {\n				i--\n			}\n			continue\n		}\n		// end")])
s('benign split while',[(G,'	for i := 0; i < utf8TextsLen; i++ {\n		lineWidth','	i := -1\n	for {\n		i++\n		if i >= utf8TextsLen {\n			break\n		}\n		lineWidth')])
s('benign split outer len',[(G,'	for i := 0; i < utf8TextsLen; i++ {\n		lineWidth','	for i := 0; i < len(utf8Texts); i++ {\n		lineWidth')])
s('benign split helper',[(G,'				performStrictLineBreak(&lineTexts, &lineText, &i, separatorIdx, opt)','				gp.strict(&lineTexts, &lineText, &i, separatorIdx, opt)'),(G,'func performStrictLineBreak(','func (gp *GoPdf) strict(lineTexts *[]string, lineText *[]rune, i *int, sep int, opt *BreakOption) {\n	performStrictLineBreak(lineTexts, lineText, i, sep, opt)\n}\n\nfunc performStrictLineBreak(')])
# buff
s('bug buff zero append',[(B,'		b.datas = append(b.datas, 0)','		b.datas = append(b.datas, make([]byte, b.position)...)')])
s('benign buff append p',[(B,'		b.datas = append(b.datas, 0)','		b.datas = append(b.datas, 0, 0)')])
s('benign buff range',[(B,'''	i := 0
	max := len(p)
	for i < max {
		b.datas[i+b.position] = p[i]
		i++
	}
''','''	i := 0
	for i = range p {
		b.datas[i+b.position] = p[i]
	}
	i = len(p)
''')])
s('bug buff continue',[(B,'		b.datas[i+b.position] = p[i]\n','		if b.datas[i+b.position] == p[i] {\n			continue\n		}\n		b.datas[i+b.position] = p[i]\n')])
# composite glyphs
s('bug composite no step',[(D,'		offset += offsetAppend\n','		offset += offsetAppend - 6\n')])
s('bug composite flags stay',[(D,'		flags, step1 := ReadUShortFromByte(fontData, offset)\n		offset += step1\n','		flags, step1 := ReadUShortFromByte(fontData, offset)\n'),(D,'		offset += step2\n		//check','		//check'),(D,'		offset += offsetAppend\n','		_ = offsetAppend\n		_ = step1\n		_ = step2\n')])
s('bug closure dup',[(D,'		if !glyphContainsKey {\n','		if !glyphContainsKey || cGlyph == 0 {\n')])
s('bug closure contains bound',[(D,'			if g == int(cGlyph) {\n','			if g == int(cGlyph) && g != glyph {\n')])
s('benign closure map',[(D,'''	for i := 0; i < len(glyphArray); i++ {
		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
''','''	for i := 0; i < len(glyphArray); {
		g := glyphArray[i]
		i++
		p.AddCompositeGlyphs(&glyphArray, g)
''')])
# arabic
s('bug arabic back',[(A,'				for i++; i < hrofLength && hrof[i] != nextHarf; i++ {','				for i++; i < hrofLength && hrof[i] != nextHarf; {')])
s('bug arabic reset',[(A,'				nextHarf = findNextNonTashkeelHarf(hrof, i)\n','				if nextHarf = findNextNonTashkeelHarf(hrof, i); nextHarf == 0 {\n					i -= 2\n				}\n')])
s('bug arabic reverse',[(A,'	for i := len(groups) - 1; i >= 0; i-- {','	for i := uint(len(groups) - 1); i >= 0; i-- {')])
s('benign arabic step 2',[(A,'					i++ // skip','					i += 1 // skip')])
# png
s('bug png j',[(P,'					alpha = append(alpha, line[j+3])\n					j = j + 4\n','					alpha = append(alpha, line[j+3])\n					if line[j+3] != 0xff {\n						j = j + 4\n					}\n')])
s('bug png i',[(P,'					j = j + 4\n				}\n\n				i++\n','					j = j + 4\n				}\n				if max > 0 {\n					i++\n				}\n')])
s('bug png seek back',[(P,'''			pal, err = readBytes(f, n)
			if err != nil {
				return err
			}
			_, err = f.Seek(int64(4), 1) // skip
''','''			pal, err = readBytes(f, n)
			if err != nil {
				return err
			}
			_, err = f.Seek(int64(4-n), 1) // skip
''')])
s('bug png seek start',[(P,'''			pal, err = readBytes(f, n)
			if err != nil {
				return err
			}
			_, err = f.Seek(int64(4), 1) // skip
''','''			pal, err = readBytes(f, n)
			if err != nil {
				return err
			}
			_, err = f.Seek(int64(4), 0) // skip
''')])
s('bug png err ignored',[(P,'''		un, err := readUInt(f)
		if err != nil {
			return err
		}
		n := int(un)
		typ, err := readBytes(f, 4)
		// fmt.Printf(">>>>%+v-%s-%d\\n", typ, string(typ), n)
		if err != nil {
			return err
		}
''','''		un, _ := readUInt(f)
		n := int(un)
		typ, err := readBytes(f, 4)
		if err != nil {
			typ = []byte("    ")
			n = 1
		}
''')])
# fonts
s('bug kern i',[(K,'		i++\n','',True)])
s('bug uint16',[(T,'	for i < numTables {','	for j := uint8(0); j < uint8(numTables+1); {\n		_ = i\n')])
s('bug format12',[(C12,'		g++\n','		if g > 0 || startCharCode == 0 {\n			g++\n		}\n')])
s('bug narrow',[(T,'	for i := 0; i < int(glyphCount); i++ {','	for i := uint8(0); int(i) < int(glyphCount); i++ {')])
s('benign narrow ok',[(T,'	for i := 0; i < int(glyphCount); i++ {','	for i := uint32(0); int(i) < int(glyphCount); i++ {')])
s('bug ne',[(T,'	for i := 0; i < int(glyphCount); i++ {','	for i := 0; i != int(glyphCount)-1; i++ {')])
s('benign ne',[(T,'	for i := 0; i < int(glyphCount); i++ {','	for i := 0; i != int(glyphCount); i++ {')])
s('bug step2 ne',[(T,'	for i := 0; i < int(glyphCount); i++ {','	for i := 0; i != int(glyphCount); i += 2 {')])
s('benign c1c2',[(T,'		for c := c1; c <= c2; c++ {','		for c := c1; !(c > c2); c++ {')])
s('bug c1c2 narrow',[(T,'		for c := c1; c <= c2; c++ {','		for cc := uint16(c1); uint(cc) <= c2; cc++ {\n			c := uint(cc)')])
s('bug seg',[(SF,'		seg++\n','		if value < 0x10000 {\n			seg++\n		}\n')])
# rectangle
s('bug rect zero',[(G,'		for accAngle < float64(90) {','		for accAngle != float64(90) {')])
s('bug rect neg',[(G,'		for accAngle < float64(90) {','		for accAngle > float64(-90) {')])
# pages
s('bug SetPage back',[(G,'	for i := 0; i < len(gp.pdfObjs); i++ {\n','	for i := 0; i < len(gp.pdfObjs); i++ {\n		if i > 0 && gp.pdfObjs[i] == gp.pdfObjs[i-1] {\n			i--\n			continue\n		}\n')])
s('benign count down',[(G,'	for i := 0; i < len(gp.pdfObjs); i++ {\n','	for n := len(gp.pdfObjs); n > 0; n-- {\n		i := len(gp.pdfObjs) - n\n')])
s('bug grows',[(G,'	for i := 0; i < len(gp.pdfObjs); i++ {\n','	for i := 0; i < len(gp.pdfObjs); i++ {\n		gp.pdfObjs = append(gp.pdfObjs, nil)\n')])
s('bug table rows',[(TB,'	for i := len(t.rows); i < t.maxRows; i++ {','	for i := len(t.rows); i < t.maxRows; t.maxRows-- {\n		i++\n		t.maxRows += 2\n')])
s('benign pad repeat',[(G,'		for len(c) < 4 {\n			c = "0" + c\n		}\n','		if len(c) < 4 {\n			c = strings.Repeat("0", 4-len(c)) + c\n		}\n')])
s('bug pad',[(G,'		for len(c) < 4 {\n			c = "0" + c\n		}\n','		for len(c) < 4 {\n			c = strings.TrimPrefix("0"+c, "00")\n		}\n')])
s('benign pad rec',[(G,'		for len(c) < 4 {\n			c = "0" + c\n		}\n','		c = pad4(c)\n'),(G,'func encodeUtf8(','func pad4(c string) string {\n	if len(c) >= 4 {\n		return c\n	}\n	return pad4("0" + c)\n}\n\nfunc encodeUtf8(')])
s('bug pad rec',[(G,'		for len(c) < 4 {\n			c = "0" + c\n		}\n','		c = pad4(c)\n'),(G,'func encodeUtf8(','func pad4(c string) string {\n	if len(c) == 4 {\n		return c\n	}\n	return pad4("0" + c)\n}\n\nfunc encodeUtf8(')])
s('benign rec slice',[(A,'''func findNextNonTashkeelHarf(''','''func lastRune(r []rune) rune {
	if len(r) < 2 {
		return 0
	}
	return lastRune(r[1:])
}

func findNextNonTashkeelHarf('''),(A,'	hrofLength := len(hrof)','	_ = lastRune(hrof)\n	hrofLength := len(hrof)')])
s('bug rec slice',[(A,'''func findNextNonTashkeelHarf(''','''func lastRune(r []rune) rune {
	if len(r) < 2 {
		return 0
	}
	return lastRune(r[0:])
}

func findNextNonTashkeelHarf('''),(A,'	hrofLength := len(hrof)','	_ = lastRune(hrof)\n	hrofLength := len(hrof)')])
s('benign goto',[(PO,'	for i < max {\n','again:\n	if i < max {\n'),(PO,'		i++\n	}\n','		i++\n		goto again\n	}\n')])
s('benign closure loop',[(G,'	for i < max {\n		if','	for more := func() bool { return i < max }; more(); {\n		if')])
s('bug gif again',[(P,'			err := png.Encode(','			err := gif.Encode(')])

SEG="""	for seg < segCount {
		if value <= s.ttfp.EndCount[seg] {
			break
		}
		seg++
	}
"""
def bis(t,lo,hi,mid): return """	lo, hi := %s(0), %s(segCount)
	for lo < hi {
		mid := %s
		if value <= s.ttfp.EndCount[mid] {
			hi = %s
		} else {
			lo = %s
		}
	}
	seg = uint(lo)
""" % (t,t,mid,hi,lo)
s('benign bisect',[(SF,SEG,bis('uint','mid + 1','mid','(lo + hi) / 2'))])
s('benign bisect int',[(SF,SEG,bis('int','mid + 1','mid','(lo + hi) / 2'))])
s('benign bisect shift',[(SF,SEG,bis('int','mid + 1','mid','(lo + hi) >> 1'))])
s('benign bisect half',[(SF,SEG,bis('int','mid + 1','mid','lo + (hi-lo)/2'))])
s('bug bisect lo',[(SF,SEG,bis('int','mid','mid','(lo + hi) / 2'))])
s('bug bisect up',[(SF,SEG,bis('int','mid + 1','mid','(lo + hi + 1) / 2'))])

PADR='	for _, r := range str {\n		c := fmt.Sprintf("%X", r)\n'
s('benign decode rune',[(G,PADR,'	for len(str) > 0 {\n		r, size := utf8.DecodeRuneInString(str)\n		str = str[size:]\n		c := fmt.Sprintf("%X", r)\n'),(G,'	"unicode/utf16"\n','	"unicode/utf16"\n	"unicode/utf8"\n')])
s('benign decode rune at',[(G,PADR,'	for i := 0; i < len(str); {\n		r, size := utf8.DecodeRuneInString(str[i:])\n		i += size\n		c := fmt.Sprintf("%X", r)\n'),(G,'	"unicode/utf16"\n','	"unicode/utf16"\n	"unicode/utf8"\n')])
s('bug decode rune',[(G,PADR,'	for len(str) > 0 {\n		r, size := utf8.DecodeRuneInString(str)\n		if r == utf8.RuneError {\n			size--\n		}\n		str = str[size:]\n		c := fmt.Sprintf("%X", r)\n'),(G,'	"unicode/utf16"\n','	"unicode/utf16"\n	"unicode/utf8"\n')])
