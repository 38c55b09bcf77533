import sys,os
os.environ['MUT_ID']='F05'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
M='map_of_character_To_glyph_index.go'; U='unicode_map.go'; C='cid_font_obj.go'; D='pdf_dictionary_obj.go'; F='subset_font_obj.go'
SET='''	m.keyIndexs[k] = len(m.Keys)
	m.Keys = append(m.Keys, k)
	m.Vals = append(m.Vals, v)
'''
s('bug index after',[(M,SET,'''	m.Keys = append(m.Keys, k)
	m.keyIndexs[k] = len(m.Keys)
	m.Vals = append(m.Vals, v)
''')])
s('benign index after minus 1',[(M,SET,'''	m.Keys = append(m.Keys, k)
	m.keyIndexs[k] = len(m.Keys) - 1
	m.Vals = append(m.Vals, v)
''')])
s('benign len vals',[(M,SET,'''	m.Keys = append(m.Keys, k)
	m.keyIndexs[k] = len(m.Vals)
	m.Vals = append(m.Vals, v)
''')])
s('benign helper',[(M,SET,'''	m.push(k, v)
}

func (m *MapOfCharacterToGlyphIndex) push(k rune, v uint) {
	n := len(m.Keys)
	m.Keys, m.Vals = append(m.Keys, k), append(m.Vals, v)
	m.keyIndexs[k] = n
''')])
s('benign set handles',[(M,SET,'''	if i, ok := m.keyIndexs[k]; ok {
		m.Vals[i] = v
		return
	}
'''+SET)])
s('bug vals dedup',[(M,SET,'''	m.keyIndexs[k] = len(m.Keys)
	m.Keys = append(m.Keys, k)
	if n := len(m.Vals); n > 0 && m.Vals[n-1] == v {
		return
	}
	m.Vals = append(m.Vals, v)
''')])
s('bug swap',[(M,SET,SET+'''	if n := len(m.Keys); n > 1 && m.Keys[n-2] > k {
		m.Keys[n-1], m.Keys[n-2] = m.Keys[n-2], m.Keys[n-1]
	}
''')])
s('bug cap',[(M,SET,'''	if len(m.Keys) >= 65535 {
		return
	}
'''+SET)])
s('bug prepend',[(M,SET,'''	m.keyIndexs[k] = len(m.Keys)
	m.Keys = append(m.Keys, k)
	m.Vals = append([]uint{v}, m.Vals...)
''')])
s('bug exists',[(M,'	if _, ok := m.keyIndexs[k]; ok {','	if i, ok := m.keyIndexs[k]; ok && i > 0 {')])
s('benign exists short',[(M,'''	if _, ok := m.keyIndexs[k]; ok {
		return true
	}
	return false
''','''	_, ok := m.keyIndexs[k]
	return ok
''')])
s('benign exists via index',[(M,'''	if _, ok := m.keyIndexs[k]; ok {
		return true
	}
	return false
''','''	i, ok := m.Index(k)
	return ok && i >= 0
''')])
s('benign linear',[(M,'''	if _, ok := m.keyIndexs[k]; ok {
		return true
	}
	return false
''','''	for _, key := range m.Keys {
		if k == key {
			return true
		}
	}
	return false
''')])
s('bug linear short',[(M,'''	if _, ok := m.keyIndexs[k]; ok {
		return true
	}
	return false
''','''	for i := 1; i < len(m.Keys); i++ {
		if k == m.Keys[i] {
			return true
		}
	}
	return false
''')])
s('benign index short',[(M,'''	if index, ok := m.keyIndexs[k]; ok {
		return index, true
	}
	return -1, false
''','''	index, ok := m.keyIndexs[k]
	if !ok {
		return -1, false
	}
	return index, ok
''')])
s('bug index',[(M,'		return index, true\n','		return index - 1, true\n')])
s('bug val key',[(M,'	return m.Vals[i], true\n','	return m.Vals[len(m.Vals)-1-i], true\n')])
s('bug val notok',[(M,'''	if !ok {
		return 0, false
	}
	return m.Vals[i], true
''','''	if !ok || m.Vals[i] == 0 {
		return 0, false
	}
	return m.Vals[i], true
''')])
s('benign val',[(M,'''	i, ok := m.Index(k)
	if !ok {
		return 0, false
	}
	return m.Vals[i], true
''','''	if i, ok := m.keyIndexs[k]; ok {
		return m.Vals[i], true
	}
	return 0, false
''')])
s('bug allvals',[(M,'	return m.Vals\n','	return m.Vals[1:]\n')])
s('benign allvals copy',[(M,'	return m.Vals\n','	return append([]uint(nil), m.Vals...)\n')])
s('bug delete',[(M,'// AllKeys get keys','''// Remove forgets a key.
func (m *MapOfCharacterToGlyphIndex) Remove(k rune) { delete(m.keyIndexs, k) }

// AllKeys get keys''')])
s('bug addchars no check',[(F,'''			s.addCharsBuff = append(s.addCharsBuff, runeValue)
			continue
		}
''','''			s.addCharsBuff = append(s.addCharsBuff, runeValue)
			if runeValue != ' ' {
				continue
			}
		}
''')])
s('bug replace exists',[(F,'''			return true, runeForReplace, 0
''','''			return false, runeForReplace, 0
''')])
s('bug replace set twice',[(F,'''				s.CharacterToGlyphIndex.Set(runeValueReplace, glyphIndexReplace) // [runeValue] = glyphIndex
			}
			//end: try to find rune for replace
			s.add''','''				s.CharacterToGlyphIndex.Set(runeValueReplace, glyphIndexReplace) // [runeValue] = glyphIndex
			}
			if runeValueReplace != runeValue {
				s.CharacterToGlyphIndex.Set(runeValue, glyphIndexReplace)
			}
			s.add''')]) # benign? key runeValue known absent
s('bug set twice',[(F,'''		s.CharacterToGlyphIndex.Set(runeValue, glyphIndex) // [runeValue] = glyphIndex
		s.addCharsBuff = append(s.addCharsBuff, runeValue)
''','''		s.CharacterToGlyphIndex.Set(runeValue, glyphIndex) // [runeValue] = glyphIndex
		s.addCharsBuff = append(s.addCharsBuff, runeValue)
		if runeValue == 0x00A0 {
			s.CharacterToGlyphIndex.Set(' ', glyphIndex)
		}
''')])
s('benign addchars restructure',[(F,'''		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
			s.addCharsBuff = append(s.addCharsBuff, runeValue)
			continue
		}
		glyphIndex''','''		known := s.CharacterToGlyphIndex.KeyExists(runeValue)
		if known {
			s.addCharsBuff = append(s.addCharsBuff, runeValue)
			continue
		}
		glyphIndex''')])
s('benign addchars helper',[(F,'''		s.CharacterToGlyphIndex.Set(runeValue, glyphIndex) // [runeValue] = glyphIndex
		s.add''','''		s.register(runeValue, glyphIndex)
		s.add'''),(F,'''func (s *SubsetFontObj) getType()''','''func (s *SubsetFontObj) register(r rune, g uint) {
	s.CharacterToGlyphIndex.Set(r, g)
}

func (s *SubsetFontObj) getType()''')])
LOOP='''	for _, v := range glyphIndexs {
		width := ci.PtrToSubsetFontObj.GlyphIndexToPdfWidth(v)
		fmt.Fprintf(w, "%d[%d]", v, width)
	}
'''
s('bug widths skip 0',[(C,LOOP,LOOP.replace('		width :=','		if v == 0 {\n			continue\n		}\n		width :='))])
s('bug widths break',[(C,LOOP,LOOP.replace('		width :=','		if v > 0xFFFF {\n			break\n		}\n		width :='))])
s('bug widths prev',[(C,LOOP,'''	for i := range glyphIndexs {
		width := ci.PtrToSubsetFontObj.GlyphIndexToPdfWidth(glyphIndexs[0])
		fmt.Fprintf(w, "%d[%d]", glyphIndexs[i], width)
	}
''')])
s('bug widths from 1',[(C,LOOP,'''	for i := 1; i < len(glyphIndexs); i++ {
		v := glyphIndexs[i]
		width := ci.PtrToSubsetFontObj.GlyphIndexToPdfWidth(v)
		fmt.Fprintf(w, "%d[%d]", v, width)
	}
''')])
s('bug widths to n-1',[(C,LOOP,'''	for i := 0; i < len(glyphIndexs)-1; i++ {
		v := glyphIndexs[i]
		width := ci.PtrToSubsetFontObj.GlyphIndexToPdfWidth(v)
		fmt.Fprintf(w, "%d[%d]", v, width)
	}
''')])
s('benign widths index',[(C,LOOP,'''	for i := 0; i < len(glyphIndexs); i++ {
		v := glyphIndexs[i]
		fmt.Fprintf(w, "%d[%d]", v, ci.PtrToSubsetFontObj.GlyphIndexToPdfWidth(v))
	}
''')])
s('benign widths while',[(C,LOOP,'''	i := 0
	n := len(glyphIndexs)
	for i < n {
		v := glyphIndexs[i]
		fmt.Fprintf(w, "%d[%d]", v, ci.PtrToSubsetFontObj.GlyphIndexToPdfWidth(v))
		i++
	}
''')])
s('benign widths helper',[(C,LOOP,'''	for _, v := range glyphIndexs {
		ci.writeWidth(w, v)
	}
'''),(C,'// SetPtrToSubsetFontObj set','''func (ci *CIDFontObj) writeWidth(w io.Writer, glyph uint) {
	width := ci.PtrToSubsetFontObj.GlyphIndexToPdfWidth(glyph)
	fmt.Fprintf(w, "%d[%d]", glyph, width)
}

// SetPtrToSubsetFontObj set''')])
s('benign widths by key',[(C,LOOP,'''	for _, k := range ci.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys() {
		v, _ := ci.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
		width, err := ci.PtrToSubsetFontObj.CharWidth(k)
		if err != nil {
			return err
		}
		fmt.Fprintf(w, "%d[%d]", v, width)
	}
'''),(C,'	glyphIndexs := ci.PtrToSubsetFontObj.CharacterToGlyphIndex.AllVals()\n','')])
s('bug sort widths',[(C,LOOP,'	sort.Slice(glyphIndexs, func(i, j int) bool { return glyphIndexs[i] < glyphIndexs[j] })\n'+LOOP),(C,'	"io"\n','	"io"\n	"sort"\n')])
UL='''		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
'''
s('bug uni skip',[(U,UL,UL+'''		if k == 0xFFFD {
			continue
		}
''')])
s('bug uni skip 0',[(U,'		glyphIndexToCharacter.set(index, k)\n','''		if index != 0 {
			glyphIndexToCharacter.set(index, k)
		}
''')])
s('bug uni set runes',[(U,'	m.runes = append(m.runes, r)\n','''	if _, ok := m.runeByIndex(index); !ok {
		m.runes = append(m.runes, r)
	}
''')])
s('bug uni rune',[(U,'			r = m.runes[i]\n','			r = m.runes[len(m.runes)-1-i]\n')])
s('bug uni indexs',[(U,'	return m.indexs\n','	return m.indexs[:len(m.indexs)-1]\n')])
s('bug uni entry',[(U,'k, k, v)','k, k+1, v)')])
s('bug uni limit',[(U,'		v, _ := glyphIndexToCharacter.runeByIndex(k)\n','		v, _ := glyphIndexToCharacter.runeByIndex(k)\n		if v > 0xFFFF {\n			continue\n		}\n')])
s('benign uni direct',[(U,'''	indexs := glyphIndexToCharacter.allIndexs()
	for _, k := range indexs {
		v, _ := glyphIndexToCharacter.runeByIndex(k)
		fmt.Fprintf(buff, "<%04X><%04X><%04X>\\n", k, k, v)
	}
''','''	for i, k := range glyphIndexToCharacter.indexs {
		fmt.Fprintf(buff, "<%04X><%04X><%04X>\\n", k, k, glyphIndexToCharacter.runes[i])
	}
''')])
s('benign uni keys',[(U,'''	indexs := glyphIndexToCharacter.allIndexs()
	for _, k := range indexs {
		v, _ := glyphIndexToCharacter.runeByIndex(k)
		fmt.Fprintf(buff, "<%04X><%04X><%04X>\\n", k, k, v)
	}
''','''	for i := 0; i < len(keys); i++ {
		g, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(keys[i])
		fmt.Fprintf(buff, "<%04X><%04X><%04X>\\n", g, g, keys[i])
	}
''')])
s('benign runeByIndex return',[(U,'''	var r rune
	ok := false
	for i, idx := range m.indexs {
		if idx == index {
			r = m.runes[i]
			ok = true
			break
		}
	}
	return r, ok
''','''	for i, idx := range m.indexs {
		if idx == index {
			return m.runes[i], true
		}
	}
	return 0, false
''')])
s('benign uni helper',[(U,'''		v, _ := glyphIndexToCharacter.runeByIndex(k)
		fmt.Fprintf(buff, "<%04X><%04X><%04X>\\n", k, k, v)
''','''		u.writeRange(buff, glyphIndexToCharacter, k)
'''),(U,'type mapGlyphIndexToCharacter struct','''func (u *UnicodeMap) writeRange(w io.Writer, m *mapGlyphIndexToCharacter, k int) {
	v, _ := m.runeByIndex(k)
	fmt.Fprintf(w, "<%04X><%04X><%04X>\\n", k, k, v)
}

type mapGlyphIndexToCharacter struct''')])
s('benign uni minmax',[(U,'''		if index < lowIndex {
			lowIndex = index
		}
''','''		lowIndex = minInt(lowIndex, index)
'''),(U,'type mapGlyphIndexToCharacter struct','''func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type mapGlyphIndexToCharacter struct''')])
CP='''		glyphArray = append(glyphArray, int(v))
		if v == 0 {
			isContainZero = true
		}
'''
s('bug closure skip',[(D,CP,'''		if v == 0 {
			isContainZero = true
			continue
		}
		glyphArray = append(glyphArray, int(v))
''')]) # then 0 not added
s('bug closure big',[(D,CP,CP.replace('		glyphArray = append(glyphArray, int(v))\n','		if v < 0x8000 {\n			glyphArray = append(glyphArray, int(v))\n		}\n'))])
s('bug closure trunc',[(D,'''	i := 0
	count := len(glyphs)
''','''	glyphArray = glyphArray[:len(glyphs)]
	i := 0
	count := len(glyphs)
''')])
s('benign closure prealloc',[(D,'	var glyphArray []int\n','	glyphArray := make([]int, 0, len(mapOfglyphs.AllVals())+1)\n')])
