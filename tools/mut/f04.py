import sys,os
os.environ['MUT_ID']='F04'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
D='pdf_dictionary_obj.go'; H='strhelper.go'
DRV='''	for i := 0; i < len(glyphArray); i++ {
		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
	}
'''
s('bug drv fixed count',[(D,DRV,'''	n := len(glyphArray)
	for i := 0; i < n; i++ {
		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
	}
''')])
s('bug drv range',[(D,DRV,'''	for _, g := range glyphArray {
		p.AddCompositeGlyphs(&glyphArray, g)
	}
''')])
s('bug drv from 1',[(D,DRV,DRV.replace('i := 0','i := 1'))])
s('bug drv skip zero',[(D,DRV,'''	for i := 0; i < len(glyphArray); i++ {
		if glyphArray[i] == 0 {
			continue
		}
		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
	}
''')])
s('bug drv break',[(D,DRV,'''	for i := 0; i < len(glyphArray); i++ {
		if i > 1000 {
			break
		}
		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
	}
''')])
s('bug drv chars only',[(D,DRV,'''	for i := range glyphs {
		p.AddCompositeGlyphs(&glyphArray, int(glyphs[i]))
	}
''')])
s('bug drv copy',[(D,DRV,'''	all := append([]int(nil), glyphArray...)
	for i := 0; i < len(glyphArray); i++ {
		p.AddCompositeGlyphs(&all, glyphArray[i])
	}
	return all
}

func (p *PdfDictionaryObj) unusedClosure(glyphArray []int) []int {
''')])
s('benign drv while',[(D,DRV,'''	i := 0
	for i < len(glyphArray) {
		g := glyphArray[i]
		p.AddCompositeGlyphs(&glyphArray, g)
		i++
	}
''')])
s('benign drv helper',[(D,DRV,'''	return p.closeOver(glyphArray)
}

func (p *PdfDictionaryObj) closeOver(glyphArray []int) []int {
	for i := 0; i < len(glyphArray); i++ {
		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
	}
''')])
s('benign drv pointer helper',[(D,DRV,'''	p.closeOver(&glyphArray)
	return glyphArray
}

func (p *PdfDictionaryObj) closeOver(glyphArray *[]int) {
	for i := 0; ; i++ {
		if i >= len(*glyphArray) {
			return
		}
		p.AddCompositeGlyphs(glyphArray, (*glyphArray)[i])
	}
}

func (p *PdfDictionaryObj) noUse(glyphArray []int) []int {
''')])
CHK='''		glyphContainsKey := false
		for _, g := range *glyphArray {
			if g == int(cGlyph) {
				glyphContainsKey = true
				break
			}
		}
		if !glyphContainsKey {
			*glyphArray = append(*glyphArray, int(cGlyph))
		}
'''
MORE='''
		if (flags & moreComponents) == 0 {
			return
		}
'''
s('bug more first',[(D,CHK+MORE,MORE[1:]+CHK)])
s('bug contains prev',[(D,CHK,CHK.replace('g == int(cGlyph)','g >= int(cGlyph)'))])
s('bug contains flipped',[(D,CHK,CHK.replace('if !glyph','if glyph'))])
s('bug append glyph',[(D,CHK,CHK.replace('append(*glyphArray, int(cGlyph))','append(*glyphArray, glyph)'))])
s('bug append minus',[(D,CHK,CHK.replace('append(*glyphArray, int(cGlyph))','append(*glyphArray, int(cGlyph)-1)'))])
s('bug append trunc',[(D,CHK,CHK.replace('append(*glyphArray, int(cGlyph))','append(*glyphArray, int(uint8(cGlyph)))'))])
s('bug append cond',[(D,CHK,CHK.replace('if !glyphContainsKey','if !glyphContainsKey && cGlyph != 1'))])
s('bug prepend',[(D,CHK,CHK.replace('append(*glyphArray, int(cGlyph))','append([]int{int(cGlyph)}, *glyphArray...)'))])
s('benign always append',[(D,CHK,'''		*glyphArray = append(*glyphArray, int(cGlyph))
''')])
s('benign contains helper',[(D,CHK,'''		if !containsInt(*glyphArray, int(cGlyph)) {
			*glyphArray = append(*glyphArray, int(cGlyph))
		}
'''),(D,'const hasScale','''func containsInt(l []int, x int) bool {
	for i := range l {
		if l[i] == x {
			return true
		}
	}
	return false
}

const hasScale''')])
s('bug contains helper early',[(D,CHK,'''		if !containsInt(*glyphArray, int(cGlyph)) {
			*glyphArray = append(*glyphArray, int(cGlyph))
		}
'''),(D,'const hasScale','''func containsInt(l []int, x int) bool {
	for i := range l {
		if l[i] == x {
			return true
		}
		if l[i] > x {
			return true
		}
	}
	return false
}

const hasScale''')])
s('benign add helper',[(D,CHK,'''		*glyphArray = addGlyph(*glyphArray, int(cGlyph))
'''),(D,'const hasScale','''func addGlyph(l []int, x int) []int {
	for _, g := range l {
		if g == x {
			return l
		}
	}
	return append(l, x)
}

const hasScale''')])
STEP='''		offsetAppend := 4
		if (flags & arg1and2areWords) == 0 {
			offsetAppend = 2
		}
		if (flags & hasScale) != 0 {
			offsetAppend += 2
		} else if (flags & xAndYScale) != 0 {
			offsetAppend += 4
		}
		if (flags & twoByTwo) != 0 {
			offsetAppend += 8
		}
		offset += offsetAppend
'''
s('bug words swapped',[(D,STEP,STEP.replace('Words) == 0','Words) != 0'))])
s('bug scale 4',[(D,STEP,STEP.replace('+= 2','+= 4'))])
s('bug xy dropped',[(D,STEP,STEP.replace('+= 4','+= 2'))])
s('bug twobytwo dropped',[(D,STEP,STEP.replace('+= 8','+= 6'))])
s('bug flag const',[(D,'const xAndYScale = 64','const xAndYScale = 0x400')])
s('bug more const',[(D,'const moreComponents = 32','const moreComponents = 16')])
s('bug words const',[(D,'const arg1and2areWords = 1','const arg1and2areWords = 2')])
s('bug scale else chain',[(D,STEP,STEP.replace('''		}
		if (flags & twoByTwo)''','''		} else if offsetAppend == 4 && (flags & twoByTwo)'''))])
s('benign else chain',[(D,STEP,STEP.replace('''		}
		if (flags & twoByTwo)''','''		} else if (flags & twoByTwo)'''))])
s('benign switch',[(D,STEP,'''		offset += 2
		if flags&arg1and2areWords != 0 {
			offset += 2
		}
		switch {
		case flags&hasScale != 0:
			offset += 2
		case flags&xAndYScale != 0:
			offset += 4
		case flags&twoByTwo != 0:
			offset += 8
		}
''')])
s('benign size helper',[(D,STEP,'''		offset += componentArgSize(flags)
'''),(D,'const hasScale','''func componentArgSize(flags uint64) int {
	n := 2
	if flags&arg1and2areWords == arg1and2areWords {
		n = 4
	}
	if flags&hasScale > 0 {
		return n + 2
	}
	if flags&xAndYScale > 0 {
		return n + 4
	}
	if flags&twoByTwo > 0 {
		return n + 8
	}
	return n
}

const hasScale''')])
s('benign arithmetic',[(D,STEP,'''		offset += 2 + 2*int(flags&arg1and2areWords) + int(flags&hasScale)/4 + int(flags&xAndYScale)/16 + int(flags&twoByTwo)/16
''')])
s('bug arithmetic',[(D,STEP,'''		offset += 2 + 2*int(flags&arg1and2areWords) + int(flags&hasScale)/4 + int(flags&xAndYScale)/16 + int(flags&twoByTwo)/32
''')])
s('benign more as cond',[(D,'''	offset += 8
	for {
''','''	offset += 8
	more := true
	for more {
'''),(D,MORE,'''
		more = flags&moreComponents != 0
''')])
s('bug more as cond',[(D,'''	offset += 8
	for {
''','''	offset += 8
	more := true
	for more {
'''),(D,MORE,'''
		more = flags&moreComponents != 0 && flags&hasScale == 0
''')])
s('benign flags as cond',[(D,'''	offset += 8
	for {
		flags, step1 :=''','''	offset += 8
	flags, step1 := uint64(moreComponents), 0
	for flags&moreComponents != 0 {
		flags, step1 ='''),(D,MORE,'\n')])
s('bug flags as cond',[(D,'''	offset += 8
	for {
		flags, step1 :=''','''	offset += 8
	flags, step1 := uint64(0), 0
	for flags&moreComponents != 0 {
		flags, step1 ='''),(D,MORE,'\n')])
s('bug returns list 2',[(D,DRV,'''	for i := 0; i < len(glyphArray); i++ {
		for j, c := range p.componentsOf(glyphArray[i]) {
			if j > 3 {
				break
			}
			glyphArray = append(glyphArray, c)
		}
	}
'''),(D,'AddCompositeGlyphs(glyphArray *[]int, glyph int) {','componentsOf(glyph int) (out []int) {'),(D,CHK,'''		out = append(out, int(cGlyph))
''')])
s('benign returns list 3',[(D,DRV,'''	for i := 0; i < len(glyphArray); i++ {
		glyphArray = append(glyphArray, p.componentsOf(glyphArray[i])...)
	}
'''),(D,'AddCompositeGlyphs(glyphArray *[]int, glyph int) {','componentsOf(glyph int) (out []int) {'),(D,CHK,'''		out = append(out, int(cGlyph))
''')])
s('bug header 8',[(D,'	offset += 8\n','	offset += 10\n')])
s('bug contours >= -1',[(D,'numContours >= 0','numContours >= -1')])
s('bug contours >0 only',[(D,'numContours >= 0','numContours > -2')])
s('bug contours unsigned',[(D,'numContours, step := ReadShortFromByte','numContours, step := ReadUShortFromByte')])
s('benign contours unsigned',[(D,'numContours, step := ReadShortFromByte','numContours, step := ReadUShortFromByte'),(D,'numContours >= 0','numContours < 0x8000')])
s('bug same offset',[(D,'start == p.GetOffset(int(glyph)+1)','start+40 >= p.GetOffset(int(glyph)+1)')])
s('benign start >= next',[(D,'start == p.GetOffset(int(glyph)+1)','start >= p.GetOffset(int(glyph)+1)')])
s('bug next glyph',[(D,'start := p.GetOffset(int(glyph))','start := p.GetOffset(int(glyph)+1)')])
s('bug getoffset',[(D,'offset := int(glyf.Offset + ttfp.LocaTable[glyph])','_ = glyf\n\toffset := int(ttfp.LocaTable[glyph])')])
s('bug getoffset loca',[(D,'glyf := ttfp.GetTables()["glyf"]\n	offset','glyf := ttfp.GetTables()["loca"]\n	offset')])
s('benign getoffset inline',[(D,'''	glyf := ttfp.GetTables()["glyf"]
	offset := int(glyf.Offset + ttfp.LocaTable[glyph])
	return offset''','''	base := ttfp.GetTables()["glyf"].Offset
	return int(base) + int(ttfp.LocaTable[glyph])''')])
s('bug reader signed',[(H,'if u >= 0x8000','if u > 0x8000')])
s('bug reader pos',[(H,'''func ReadUShortFromByte(data []byte, offset int) (uint64, int) {
	buff := data[offset : offset+2]''','''func ReadUShortFromByte(data []byte, offset int) (uint64, int) {
	buff := data[offset : offset+1]''')])
s('benign reader',[(H,'''func ReadUShortFromByte(data []byte, offset int) (uint64, int) {
	buff := data[offset : offset+2]
	num := big.NewInt(0)
	num.SetBytes(buff)
	return num.Uint64(), 2''','''func ReadUShortFromByte(data []byte, offset int) (uint64, int) {
	return uint64(data[offset])<<8 | uint64(data[offset+1]), 2''')])
s('benign reader be',[(H,'''	num := big.NewInt(0)
	num.SetBytes(buff)
	return num.Uint64(), 2''','''	return uint64(binary.BigEndian.Uint16(buff)), 2'''),(H,'import (','import (\n\t"encoding/binary"')])
s('benign reader le call',[(H,'''	num := big.NewInt(0)
	num.SetBytes(buff)
	u := num.Uint64()
	var v int64
	if u >= 0x8000 {
		v = int64(u) - 65536
	} else {
		v = int64(u)
	}
	return v, 2''','''	return int64(int16(binary.BigEndian.Uint16(buff))), 2'''),(H,'import (','import (\n\t"encoding/binary"')])
s('bug reader le',[(H,'''	num := big.NewInt(0)
	num.SetBytes(buff)
	return num.Uint64(), 2''','''	return uint64(binary.LittleEndian.Uint16(buff)), 2'''),(H,'import (','import (\n\t"encoding/binary"')])
s('benign seen map',[(D,DRV,'''	seen := make(map[int]bool)
	for _, g := range glyphArray {
		seen[g] = true
	}
	for i := 0; i < len(glyphArray); i++ {
		p.addComposite(&glyphArray, seen, glyphArray[i])
	}
'''),(D,CHK,'''		if !seen[int(cGlyph)] {
			seen[int(cGlyph)] = true
			*glyphArray = append(*glyphArray, int(cGlyph))
		}
'''),(D,'func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {','func (p *PdfDictionaryObj) addComposite(glyphArray *[]int, seen map[int]bool, glyph int) {')])
s('bug seen map',[(D,DRV,'''	seen := make(map[int]bool)
	for i := 0; i < len(glyphArray); i++ {
		p.addComposite(&glyphArray, seen, glyphArray[i])
	}
'''),(D,CHK,'''		if !seen[int(cGlyph)] {
			seen[int(cGlyph)] = true
			seen[int(cGlyph)+1] = true
			*glyphArray = append(*glyphArray, int(cGlyph))
		}
'''),(D,'func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {','func (p *PdfDictionaryObj) addComposite(glyphArray *[]int, seen map[int]bool, glyph int) {')])
s('benign guard',[(D,'''	offset += 8
	for {
''','''	offset += 8
	for {
		if offset+4 > len(fontData) {
			return
		}
''')])
s('bug guard',[(D,'''	offset += 8
	for {
''','''	offset += 8
	for {
		if offset+16 > len(fontData) {
			return
		}
''')])
s('benign returns list',[(D,DRV,'''	for i := 0; i < len(glyphArray); i++ {
		glyphArray = p.withComponents(glyphArray, glyphArray[i])
	}
'''),(D,'func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {','''func (p *PdfDictionaryObj) withComponents(l []int, glyph int) []int {
	p.AddCompositeGlyphs(&l, glyph)
	return l
}

func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {''')])
s('benign returns list 2',[(D,DRV,'''	for i := 0; i < len(glyphArray); i++ {
		for _, c := range p.componentsOf(glyphArray[i]) {
			glyphArray = append(glyphArray, c)
		}
	}
'''),(D,'AddCompositeGlyphs(glyphArray *[]int, glyph int) {','componentsOf(glyph int) (out []int) {'),(D,CHK,'''		out = append(out, int(cGlyph))
''')])
s('bug after',[(D,DRV,DRV+'''	glyphArray = append(glyphArray, 3)
''')])
s('bug result prefix',[(D,DRV,DRV+'''	glyphArray = glyphArray[:len(glyphs)]
''')])
