import sys,os
os.environ['MUT_ID']='L05'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
G='gopdf.go'; F='subset_font_obj.go'; C='content_obj.go'; L='list_cache_content.go'; T='cache_content_text.go'
ADD='''	text, err := gp.curr.FontISubset.AddChars(text)
	if err != nil {
		return err
	}

	err = gp.getContent().AppendStreamText(text)
'''
s('bug text not added',[(G,ADD,'''	err := gp.getContent().AppendStreamText(text)
''')])
s('bug text result dropped',[(G,ADD,'''	_, err := gp.curr.FontISubset.AddChars(text)
	if err != nil {
		return err
	}

	err = gp.getContent().AppendStreamText(text)
''')])
s('bug text suffix',[(G,ADD,ADD.replace('AppendStreamText(text)','AppendStreamText(text + "\\u00ad")'))])
s('bug text if long',[(G,ADD,'''	var err error
	if len(text) > 1 {
		text, err = gp.curr.FontISubset.AddChars(text)
		if err != nil {
			return err
		}
	}

	err = gp.getContent().AppendStreamText(text)
''')])
s('bug text upper',[(G,ADD,ADD.replace('AppendStreamText(text)','AppendStreamText(strings.ToUpper(text))'))])
MW='''	text, err := gp.curr.FontISubset.AddChars(text) //AddChars for create CharacterToGlyphIndex
	if err != nil {
		return 0, err
	}

	_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text,'''
s('bug measure raw',[(G,MW,'''	_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text,''')])
s('bug measure result dropped',[(G,MW,MW.replace('text, err := gp','_, err := gp'))])
s('bug multicell raw lineheight',[(G,'createContent(gp.curr.FontISubset, itext,','createContent(gp.curr.FontISubset, text,'),(G,'	itext, err :=','	_, err =')])
s('bug cell page between',[(G,'''	err = gp.getContent().AppendStreamSubsetFont(rectangle, text, defaultopt)
''','''	if gp.curr.Y > gp.curr.pageSize.H {
		gp.AddPage()
	}
	err = gp.getContent().AppendStreamSubsetFont(rectangle, text, defaultopt)
''')])
s('bug cell setfont between',[(G,'''	err = gp.getContent().AppendStreamSubsetFont(rectangle, text, defaultopt)
''','''	if gp.curr.FontStyle&Underline != 0 {
		if err := gp.SetFontWithStyle("u", Underline, 12); err != nil {
			return err
		}
	}
	err = gp.getContent().AppendStreamSubsetFont(rectangle, text, defaultopt)
''')])
s('ok setfont before',[(G,'''	text, err := gp.curr.FontISubset.AddChars(text)
	if err != nil {
		return err
	}
	err = gp.getContent().AppendStreamSubsetFont(rectangle, text, defaultopt)
''','''	if gp.curr.Y > 1e6 {
		gp.AddPage()
	}
	text, err := gp.curr.FontISubset.AddChars(text)
	if err != nil {
		return err
	}
	err = gp.getContent().AppendStreamSubsetFont(rectangle, text, defaultopt)
''')])
s('bug fill raw',[(G,'		contentText.text = text\n','		contentText.text = raw\n'),(G,'		text, err := info.fontISubset.AddChars(text)','		raw := text\n		text, err := info.fontISubset.AddChars(text)')])
s('bug fill current font',[(G,'		text, err := info.fontISubset.AddChars(text)','		text, err := gp.curr.FontISubset.AddChars(text)')])
s('bug fill measured other font',[(G,'createContent(info.fontISubset, text, info.fontSize','createContent(gp.curr.FontISubset, text, info.fontSize')])
s('bug fill record late font',[(G,'''	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)
''','''	gp.AddPage()
	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)
	gp.AddPage()
''')])
s('bug default text',[(G,'''	for _, info := range infos {
		content, ok''','''	if text == "" {
		text = "-"
	}
	for _, info := range infos {
		content, ok'''),(G,'		contentText.text = text\n','		contentText.text = text\n		if textWidthZero := text == "-"; textWidthZero {\n			contentText.text = "\\u2013"\n		}\n')])
AC='''		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
			s.addCharsBuff = append(s.addCharsBuff, runeValue)
			continue
		}
		glyphIndex, err'''
s('bug add ascii assumed',[(F,AC,AC.replace('KeyExists(runeValue) {','KeyExists(runeValue) || runeValue == 0x20 {'))])
s('bug add dup skipped',[(F,AC,AC.replace('			s.addCharsBuff = append(s.addCharsBuff, runeValue)\n',''))])
s('bug add orig given back',[(F,'			s.addCharsBuff = append(s.addCharsBuff, runeValueReplace)','			s.addCharsBuff = append(s.addCharsBuff, runeValue)')])
s('bug add set only when glyph',[(F,'			if !alreadyExists {','			if !alreadyExists && glyphIndexReplace != 0 {')])
s('bug add wrong exists',[(F,'			return true, runeForReplace, 0','			return true, runeNotFound, 0')])
s('bug add exists true on error',[(F,'			return false, runeForReplace, 0','			return true, runeForReplace, 0')])
s('bug add buffer kept',[(F,'	s.addCharsBuff = s.addCharsBuff[:0]\n	for','	for')])
s('bug add wrong glyph',[(F,'return false, runeForReplace, glyphIndexForReplace','return false, runeNotFound, glyphIndexForReplace')])
s('bug add glyph of other',[(F,'glyphIndexForReplace, err := s.CharCodeToGlyphIndex(runeForReplace)','glyphIndexForReplace, err := s.CharCodeToGlyphIndex(runeNotFound)')])
s('bug add no set',[(F,'		s.CharacterToGlyphIndex.Set(runeValue, glyphIndex) // [runeValue] = glyphIndex\n		s.addCharsBuff','		if glyphIndex != 0 {\n			s.CharacterToGlyphIndex.Set(runeValue, glyphIndex)\n		}\n		s.addCharsBuff')])
s('bug add break',[(F,'''			s.addCharsBuff = append(s.addCharsBuff, runeValueReplace)
			continue''','''			s.addCharsBuff = append(s.addCharsBuff, runeValueReplace)
			break''')])
s('bug table reset',[(G,'	gp.curr.FontISubset = sub\n','	gp.curr.FontISubset = sub\n					if gp.curr.FontSize == 0 {\n						sub.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex()\n					}\n')] if False else [(F,'	s.ttfFontOption = option\n','	s.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex()\n	s.ttfFontOption = option\n')])
s('bug elem font',[(C,'''	fontSubset := c.getRoot().curr.FontISubset

	//they are not''','''	fontSubset := c.getRoot().curr.FontISubset
	if cellOpt.BreakOption != nil && c.listCache.last() != nil {
		if l, ok := c.listCache.last().(*cacheContentText); ok {
			fontSubset = l.fontSubset
		}
	}

	//they are not''')])
s('bug text trimmed dots',[(L,'	cacheFont.text += text\n','	cacheFont.text += text\n	if len(cacheFont.text) > 1000 {\n		cacheFont.text = cacheFont.text[:997] + "…"\n	}\n')])
# benign
s('ok helper register',[(G,ADD,'''	text, err := gp.registered(text)
	if err != nil {
		return err
	}

	err = gp.getContent().AppendStreamText(text)
'''),(G,'// Text write text start','''func (gp *GoPdf) registered(t string) (string, error) {
	out, err := gp.curr.FontISubset.AddChars(t)
	if err != nil {
		return "", err
	}
	return out, nil
}

// Text write text start''')])
s('ok helper draws',[(G,ADD,'''	err := gp.drawRegistered(text, gp.getContent().AppendStreamText)
'''),(G,'// Text write text start','''func (gp *GoPdf) drawRegistered(t string, draw func(string) error) error {
	out, err := gp.curr.FontISubset.AddChars(t)
	if err != nil {
		return err
	}
	return draw(out)
}

// Text write text start''')])
s('ok font local',[(G,MW,MW.replace('text, err := gp.curr.FontISubset.AddChars','f := gp.curr.FontISubset\n	text, err := f.AddChars').replace('createContent(gp.curr.FontISubset','createContent(f'))])
s('ok font getter',[(G,MW,MW.replace('createContent(gp.curr.FontISubset','createContent(gp.font()')),(G,'// Text write text start','''func (gp *GoPdf) font() *SubsetFontObj { return gp.curr.FontISubset }

// Text write text start''')])
s('ok measure helper',[(G,'''	text, err := gp.curr.FontISubset.AddChars(text) //AddChars for create CharacterToGlyphIndex
	if err != nil {
		return 0, err
	}

	_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
''','''	_, _, textWidthPdfUnit, err := gp.measure(text)
'''),(G,'// Text write text start','''func (gp *GoPdf) measure(text string) (float64, float64, float64, error) {
	text, err := gp.curr.FontISubset.AddChars(text)
	if err != nil {
		return 0, 0, 0, err
	}
	return createContent(gp.curr.FontISubset, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
}

// Text write text start''')])
s('ok add builder',[(F,'	s.addCharsBuff = s.addCharsBuff[:0]\n','	var out strings.Builder\n'),(F,'s.addCharsBuff = append(s.addCharsBuff, runeValueReplace)','out.WriteRune(runeValueReplace)'),(F,'s.addCharsBuff = append(s.addCharsBuff, runeValue)','out.WriteRune(runeValue)',1),(F,'return string(s.addCharsBuff), nil','return out.String(), nil'),(F,'import (','import (\n	"strings"')])
s('ok add local',[(F,'	s.addCharsBuff = s.addCharsBuff[:0]\n','	out := make([]rune, 0, len(txt))\n'),(F,'s.addCharsBuff = append(s.addCharsBuff, runeValueReplace)','out = append(out, runeValueReplace)'),(F,'s.addCharsBuff = append(s.addCharsBuff, runeValue)','out = append(out, runeValue)',1),(F,'return string(s.addCharsBuff), nil','return string(out), nil')])
BODY='''	for _, runeValue := range txt {
		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
			s.addCharsBuff = append(s.addCharsBuff, runeValue)
			continue
		}
		glyphIndex, err := s.CharCodeToGlyphIndex(runeValue)
		if err == ErrGlyphNotFound {
			//never return error on this, just call function OnGlyphNotFound
			if s.ttfFontOption.OnGlyphNotFound != nil {
				s.ttfFontOption.OnGlyphNotFound(runeValue)
			}
			//start: try to find rune for replace
			alreadyExists, runeValueReplace, glyphIndexReplace := s.replaceGlyphThatNotFound(runeValue)
			if !alreadyExists {
				s.CharacterToGlyphIndex.Set(runeValueReplace, glyphIndexReplace) // [runeValue] = glyphIndex
			}
			//end: try to find rune for replace
			s.addCharsBuff = append(s.addCharsBuff, runeValueReplace)
			continue
		} else if err != nil {
			return "", err
		}
		s.CharacterToGlyphIndex.Set(runeValue, glyphIndex) // [runeValue] = glyphIndex
		s.addCharsBuff = append(s.addCharsBuff, runeValue)
	}
	return string(s.addCharsBuff), nil
}
'''
s('ok add helper',[(F,BODY,'''	for _, r := range txt {
		r2, err := s.addChar(r)
		if err != nil {
			return "", err
		}
		s.addCharsBuff = append(s.addCharsBuff, r2)
	}
	return string(s.addCharsBuff), nil
}

func (s *SubsetFontObj) addChar(runeValue rune) (rune, error) {
	if s.CharacterToGlyphIndex.KeyExists(runeValue) {
		return runeValue, nil
	}
	glyphIndex, err := s.CharCodeToGlyphIndex(runeValue)
	if err != nil && err != ErrGlyphNotFound {
		return 0, err
	}
	if err == nil {
		s.CharacterToGlyphIndex.Set(runeValue, glyphIndex)
		return runeValue, nil
	}
	if s.ttfFontOption.OnGlyphNotFound != nil {
		s.ttfFontOption.OnGlyphNotFound(runeValue)
	}
	have, other, g := s.replaceGlyphThatNotFound(runeValue)
	if have {
		return other, nil
	}
	s.CharacterToGlyphIndex.Set(other, g)
	return other, nil
}
''')])
s('ok add one exit',[(F,BODY,'''	for _, r := range txt {
		use := r
		if !s.CharacterToGlyphIndex.KeyExists(r) {
			glyphIndex, err := s.CharCodeToGlyphIndex(r)
			switch {
			case err == nil:
				s.CharacterToGlyphIndex.Set(r, glyphIndex)
			case err == ErrGlyphNotFound:
				if s.ttfFontOption.OnGlyphNotFound != nil {
					s.ttfFontOption.OnGlyphNotFound(r)
				}
				var have bool
				var g uint
				have, use, g = s.replaceGlyphThatNotFound(r)
				if !have {
					s.CharacterToGlyphIndex.Set(use, g)
				}
			default:
				return "", err
			}
		}
		s.addCharsBuff = append(s.addCharsBuff, use)
	}
	return string(s.addCharsBuff), nil
}
''')])
s('ok add indexed',[(F,BODY,BODY.replace('	for _, runeValue := range txt {','	for _, runeValue := range []rune(txt) {'))])
s('ok add inline replace',[(F,'			alreadyExists, runeValueReplace, glyphIndexReplace := s.replaceGlyphThatNotFound(runeValue)\n','''			alreadyExists, runeValueReplace, glyphIndexReplace := false, runeValue, uint(0)
			if s.ttfFontOption.OnGlyphNotFoundSubstitute != nil {
				runeValueReplace = s.ttfFontOption.OnGlyphNotFoundSubstitute(runeValue)
				if s.CharacterToGlyphIndex.KeyExists(runeValueReplace) {
					alreadyExists = true
				} else if g, err := s.CharCodeToGlyphIndex(runeValueReplace); err == nil {
					glyphIndexReplace = g
				}
			}
''')])
s('ok add no exists result',[(F,'''			if !alreadyExists {
				s.''','''			if !s.CharacterToGlyphIndex.KeyExists(runeValueReplace) {
				s.'''),(F,'alreadyExists, runeValueReplace, glyph','_, runeValueReplace, glyph')])
s('ok multicell trim',[(G,'''	for i, v := range []rune(text) {
		if totalLineHeight+lineHeight > rectangle.H {
			break''','''	runes := []rune(text)
	for i := 0; i < len(runes); i++ {
		v := runes[i]
		if totalLineHeight+lineHeight > rectangle.H {
			break''')])
s('ok append parts',[(L,'	cacheFont.text += text\n','	full := cacheFont.text + text\n	cacheFont.text = full\n')])
s('ok append split',[(L,'	if mustMakeNewCache { //make new cell','	if mustMakeNewCache { //make new cell\n		cache.text = ""')])
s('ok fill helper',[(G,'		contentText.text = text\n','		contentText.setText(text)\n'),(G,'// [experimental]\n// fill','''func (c *cacheContentText) setText(t string) {
	c.text = t
}

// [experimental]
// fill''')])
s('ok fill own font',[(G,'info.fontISubset.AddChars(text)','contentText.fontSubset.AddChars(text)'),(G,'createContent(info.fontISubset, text, info','createContent(contentText.fontSubset, text, info')])
s('ok fill closure',[(G,'''		contentText.text = text
''','''		set := func() { contentText.text = text }
		set()
''')])

s('bug table reset on font',[(G,'	gp.curr.FontISubset = sub\n','	gp.curr.FontISubset = sub\n					if gp.curr.FontSize == 0 {\n						sub.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex()\n					}\n')])
s('ok set object direct',[(G,'	unicodemap.SetPtrToSubsetFontObj(subsetFont)\n','	unicodemap.PtrToSubsetFontObj = subsetFont\n')])
s('bug set other font',[(G,'	unicodemap.SetPtrToSubsetFontObj(subsetFont)\n','	unicodemap.SetPtrToSubsetFontObj(subsetFont)\n	if gp.curr.FontISubset != nil && gp.curr.FontISubset.Family == subsetFont.Family {\n		unicodemap.SetPtrToSubsetFontObj(gp.curr.FontISubset)\n	}\n')])
