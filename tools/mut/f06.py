import sys,os
os.environ['MUT_ID']='F06'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
G='gopdf.go'; P='image_obj_parse.go'; T='cache_content_text.go'; B='transparency.go'; S='style.go'; L='list_cache_content.go'; TB='table.go'; W='cache_content_polygon.go'; R='cache_content_rectangle.go'; LT='cache_content_line_type.go'; FS='font_style.go'
import glob
for f in glob.glob('/repo/*.go'):
    if 'func getConvertedStyle(' in open(f).read() and not f.endswith('_test.go'): FS=os.path.basename(f)
CX='''		if c.cellOpt.Align&Right == Right {
			x = c.x + c.cellWidthPdfUnit - c.textWidthPdfUnit
		} else if c.cellOpt.Align&Center == Center {
			x = c.x + c.cellWidthPdfUnit*0.5 - c.textWidthPdfUnit*0.5
		} else {
			x = c.x
		}
'''
s('text bug center first',[(T,CX,CX.replace('Center','Q1').replace('Right','Center').replace('Q1','Right'))])
s('text bug right equals',[(T,CX,CX.replace('c.cellOpt.Align&Right == Right','c.cellOpt.Align == Right'))])
s('text bug center any bit',[(T,CX,CX.replace('c.cellOpt.Align&Center == Center','c.cellOpt.Align&(Center|Middle) != 0'))])
s('text benign any bit',[(T,CX,CX.replace('c.cellOpt.Align&Right == Right','c.cellOpt.Align&Right != 0'))])
s('text benign switch',[(T,CX,'''		align := c.cellOpt.Align
		slack := c.cellWidthPdfUnit - c.textWidthPdfUnit
		switch {
		case align&Right != 0:
			x = c.x + slack
		case align&Center != 0:
			x = c.x + slack/2
		default:
			x = c.x
		}
''')])
s('text benign factor',[(T,CX,'''		factor := 0.0
		if c.cellOpt.Align&Right == Right {
			factor = 1
		} else if c.cellOpt.Align&Center == Center {
			factor = 0.5
		}
		x = c.x + (c.cellWidthPdfUnit-c.textWidthPdfUnit)*factor
''')])
s('text benign helper',[(T,CX,'''		x = alignedAt(c.x, c.cellWidthPdfUnit, c.textWidthPdfUnit, c.cellOpt.Align)
'''),(T,'func (c *cacheContentText) calX() (','''func alignedAt(x, cell, text float64, align int) float64 {
	if align&Right == Right {
		return x + cell - text
	}
	if align&Center == Center {
		return x + 0.5*(cell-text)
	}
	return x
}

func (c *cacheContentText) calX() (''')])
CY='''		if c.cellOpt.Align&Bottom == Bottom {
			y = pageHeight - c.y - c.cellHeightPdfUnit - c.calTypoDescender()
		} else if c.cellOpt.Align&Middle == Middle {
			y = pageHeight - c.y - c.cellHeightPdfUnit*0.5 - (c.calTypoDescender()+c.calTypoAscender())*0.5
'''
s('text bug middle asc',[(T,CY,CY.replace('(c.calTypoDescender()+c.calTypoAscender())*0.5','c.calTypoAscender()*0.5'))])
s('text bug bottom asc',[(T,CY,CY.replace('c.cellHeightPdfUnit - c.calTypoDescender()','c.cellHeightPdfUnit - c.calTypoAscender()'))])
s('text bug bottom sign',[(T,CY,CY.replace('c.cellHeightPdfUnit - c.calTypoDescender()','c.cellHeightPdfUnit + c.calTypoDescender()'))])
s('text bug middle bit',[(T,CY,CY.replace('c.cellOpt.Align&Middle == Middle','c.cellOpt.Align&Middle == Center'))])
s('text benign cy reorder',[(T,CY,'''		top := pageHeight - c.y
		if c.cellOpt.Align&Bottom == Bottom {
			y = top - c.calTypoDescender() - c.cellHeightPdfUnit
		} else if c.cellOpt.Align&Middle == Middle {
			y = top - (c.cellHeightPdfUnit+c.calTypoDescender()+c.calTypoAscender())/2
''')])
s('text bug border left and',[(T,'	if c.cellOpt.Border&Left == Left {','	if c.cellOpt.Border&Left == Left && c.cellOpt.Border&Right != Right {')])
s('text bug border top eq',[(T,'	if c.cellOpt.Border&Top == Top {','	if c.cellOpt.Border == Top || c.cellOpt.Border == AllBorders {')])
s('text bug border bottom y',[(T,'''		startY := c.pageHeight() - c.y - c.cellHeightPdfUnit
''','''		startY := c.pageHeight() - (c.y - c.cellHeightPdfUnit)
''')])
s('text bug border right x',[(T,'''		endX := c.x + c.cellWidthPdfUnit
''','''		endX := c.x + c.textWidthPdfUnit
''')])
s('text bug border early',[(T,'''	if c.cellOpt.Border&Right == Right {
''','''	if c.cellOpt.Border&(Right|Bottom) == 0 {
		return nil
	}

	if c.cellOpt.Border&Left == 0 && c.cellOpt.Border&Top == 0 {
		return nil
	}

	if c.cellOpt.Border&Right == Right {
''')])
BR='''	if c.cellOpt.Border&Right == Right {
		startX := c.x + c.cellWidthPdfUnit
		startY := c.pageHeight() - c.y
		endX := c.x + c.cellWidthPdfUnit
		endY := startY - c.cellHeightPdfUnit
		_, err := fmt.Fprintf(w, "%0.2f %0.2f m %0.2f %0.2f l s\\n", startX, startY, endX, endY)
		if err != nil {
			return err
		}
	}
'''
s('text benign border helper',[(T,BR,'''	if c.cellOpt.Border&Right == Right {
		startX := c.x + c.cellWidthPdfUnit
		startY := c.pageHeight() - c.y
		if err := borderLine(w, startX, startY, startX, startY-c.cellHeightPdfUnit); err != nil {
			return err
		}
	}
'''),(T,'func (c *cacheContentText) drawBorder(','''func borderLine(w io.Writer, x1, y1, x2, y2 float64) error {
	_, err := fmt.Fprintf(w, "%0.2f %0.2f m %0.2f %0.2f l s\\n", x1, y1, x2, y2)
	return err
}

func (c *cacheContentText) drawBorder(''')])
s('text benign border sprintf',[(T,BR,BR.replace('_, err := fmt.Fprintf(w, ','_, err := io.WriteString(w, fmt.Sprintf(').replace('endX, endY)','endX, endY))'))])
s('text benign border none',[(T,'''	lineOffset := c.lineWidth * 0.5
''','''	if c.cellOpt.Border == 0 {
		return nil
	}
	lineOffset := c.lineWidth * 0.5
''')])
s('text benign border order',[(T,BR,''),(T,'''	if c.cellOpt.Border&Left == Left {''',BR+'''
	if c.cellOpt.Border&Left == Left {''')])
s('text benign border loop',[(T,BR,''),(T,'''	if c.cellOpt.Border&Left == Left {
		startX := c.x
		startY := c.pageHeight() - c.y
		endX := c.x
		endY := startY - c.cellHeightPdfUnit
		_, err := fmt.Fprintf(w, "%0.2f %0.2f m %0.2f %0.2f l s\\n", startX, startY, endX, endY)
		if err != nil {
			return err
		}
	}
''','''	for _, side := range []int{Left, Right} {
		if c.cellOpt.Border&side == 0 {
			continue
		}
		startX := c.x
		if side == Right {
			startX += c.cellWidthPdfUnit
		}
		startY := c.pageHeight() - c.y
		endY := startY - c.cellHeightPdfUnit
		_, err := fmt.Fprintf(w, "%0.2f %0.2f m %0.2f %0.2f l s\\n", startX, startY, startX, endY)
		if err != nil {
			return err
		}
	}
''')])
U='''	if c.fontStyle&Underline == Underline {
'''
s('text bug underline eq',[(T,U,U.replace('c.fontStyle&Underline == Underline','c.fontStyle == Underline'))])
s('text bug underline le',[(T,U,U.replace('c.fontStyle&Underline == Underline','c.fontStyle&(Bold|Underline) == Underline'))])
s('text benign underline ge',[(T,U,U.replace('c.fontStyle&Underline == Underline','c.fontStyle&Underline != 0'))])
s('text benign underline var',[(T,U,'	underlined := c.fontStyle&Underline == Underline\n	if underlined {\n')])
F='''	if cacheFont.cellOpt.Float == 0 || cacheFont.cellOpt.Float&Right == Right || cacheFont.contentType == ContentTypeText {
		x = cacheFont.x + textWidthPdfUnit
	}
	if cacheFont.cellOpt.Float&Bottom == Bottom {
'''
s('float bug right eq',[(L,F,F.replace('cacheFont.cellOpt.Float&Right == Right','cacheFont.cellOpt.Float == Right'))])
s('float bug zero',[(L,F,F.replace('cacheFont.cellOpt.Float == 0 || ',''))])
s('float bug bottom eq',[(L,F,F.replace('cacheFont.cellOpt.Float&Bottom == Bottom','cacheFont.cellOpt.Float == Bottom'))])
s('float bug align',[(L,F,F.replace('cacheFont.cellOpt.Float&Right == Right','cacheFont.cellOpt.Align&Right == Right'))])
s('float bug else',[(L,F,F.replace('	}\n	if cacheFont.cellOpt.Float&Bottom','	} else if cacheFont.cellOpt.Float&Bottom'))])
s('float benign vars',[(L,F,'''	float := cacheFont.cellOpt.Float
	if cacheFont.contentType == ContentTypeText || float == 0 || float&Right != 0 {
		x = cacheFont.x + textWidthPdfUnit
	}
	if float&Bottom != 0 {
''')])
s('blend bug overlay gone',[(B,'''	case string(Overlay):
		return Overlay, nil
''','')])
s('blend bug swapped',[(B,'''	case string(HardLight):
		return HardLight, nil
''','''	case string(HardLight):
		return SoftLight, nil
''')])
s('blend bug const',[(B,'BlendModeType = "/ColorDodge"','BlendModeType = "/Colordodge"')])
s('blend bug default normal',[(B,'		return "", errors.New("blend mode is unknown")','		return NormalBlendMode, nil'),(B,'	"errors"\n','')])
s('blend bug empty',[(B,'	case "", string(NormalBlendMode)','	case string(NormalBlendMode)')])
DB=open('/repo/transparency.go').read(); DB=DB[DB.index('	switch bmType {'):DB.rindex('}')]
names='Hue Color NormalBlendMode Darken Screen Overlay Lighten Multiply Exclusion ColorBurn HardLight SoftLight Difference Saturation Luminosity ColorDodge'.split()
s('blend benign switch typed',[(B,DB,'''	switch mode := BlendModeType(bmType); mode {
	case "":
		return NormalBlendMode, nil
	case '''+', '.join(names)+''':
		return mode, nil
	}
	return "", errors.New("blend mode is unknown")
''')])
s('blend benign map',[(B,DB,'''	if bmType == "" {
		return NormalBlendMode, nil
	}
	mode, ok := blendModes[bmType]
	if !ok {
		return "", errors.New("blend mode is unknown")
	}
	return mode, nil
'''),(B,'func defineBlendModeType(','var blendModes = map[string]BlendModeType{\n'+''.join('	string(%s): %s,\n'%(n,n) for n in names)+'}\n\nfunc defineBlendModeType(')])
s('blend benign list',[(B,DB,'''	if bmType == "" {
		return NormalBlendMode, nil
	}
	for _, mode := range blendModes {
		if bmType == string(mode) {
			return mode, nil
		}
	}
	return "", errors.New("blend mode is unknown")
'''),(B,'func defineBlendModeType(','var blendModes = []BlendModeType{'+', '.join(names)+'}\n\nfunc defineBlendModeType(')])
s('blend bug list',[(B,DB,'''	if bmType == "" {
		return NormalBlendMode, nil
	}
	for _, mode := range blendModes {
		if bmType == string(mode) {
			return mode, nil
		}
	}
	return "", errors.New("blend mode is unknown")
'''),(B,'func defineBlendModeType(','var blendModes = []BlendModeType{'+', '.join(names[:-1])+'}\n\nfunc defineBlendModeType(')])
FB='''	fontStyle = strings.ToUpper(fontStyle)
	if strings.Contains(fontStyle, "B") {
		style = style | Bold
	}
	if strings.Contains(fontStyle, "I") {
		style = style | Italic
	}
	if strings.Contains(fontStyle, "U") {
		style = style | Underline
	}
	return
'''
s('fstyle bug lower',[(FS,FB,FB.replace('	fontStyle = strings.ToUpper(fontStyle)\n',''))])
s('fstyle bug equal',[(FS,FB,FB.replace('strings.Contains(fontStyle, "I")','fontStyle == "I"'))])
s('fstyle bug assign',[(FS,FB,FB.replace('style | Underline','Underline'))])
s('fstyle bug prefix',[(FS,FB,FB.replace('strings.Contains(fontStyle, "U")','strings.HasPrefix(fontStyle, "U")'))])
s('fstyle benign loop',[(FS,FB,'''	for _, r := range strings.ToUpper(fontStyle) {
		switch r {
		case 'B':
			style |= Bold
		case 'I':
			style |= Italic
		case 'U':
			style |= Underline
		}
	}
	return style
''')])
s('fstyle benign containsany',[(FS,FB,'''	if strings.ContainsAny(fontStyle, "bB") {
		style |= Bold
	}
	if strings.ContainsAny(fontStyle, "iI") {
		style |= Italic
	}
	if strings.ContainsAny(fontStyle, "uU") {
		style |= Underline
	}
	return style
''')])
s('fstyle benign index',[(FS,FB,FB.replace('strings.Contains(fontStyle, "U")','strings.Index(fontStyle, "U") >= 0'))])
s('fstyle benign table',[(FS,FB,'''	fontStyle = strings.ToUpper(fontStyle)
	for _, s := range []struct {
		letter string
		bit    int
	}{{"B", Bold}, {"I", Italic}, {"U", Underline}} {
		if strings.Contains(fontStyle, s.letter) {
			style |= s.bit
		}
	}
	return style
''')])
s('size bug int16 gone',[(G,'''	case int16:
		return float64(size), nil
''','')])
s('size bug uint8 int8',[(G,'''	case uint8:
		return float64(size), nil
''','''	case uint8:
		return float64(int8(size)), nil
''')])
s('size bug float trunc',[(G,'''	case float32:
		return float64(size), nil
''','''	case float32:
		return float64(int(size)), nil
''')])
s('size benign named',[(G,'''	case float32:
		return float64(size), nil
''','''	case float32:
		fontSize = float64(size)
		return fontSize, nil
''')])
PS='''	op := DrawPaintStyle
	if style == "F" {
		op = FillPaintStyle
	} else if style == "FD" || style == "DF" {
		op = DrawFillPaintStyle
	}

	return op
'''
s('pstyle bug DF',[(S,PS,PS.replace(' || style == "DF"',''))])
s('pstyle bug default',[(S,PS,PS.replace('op := DrawPaintStyle','op := FillPaintStyle'))])
s('pstyle benign switch',[(S,PS,'''	switch style {
	case "F":
		return FillPaintStyle
	case "DF", "FD":
		return DrawFillPaintStyle
	default:
		return DrawPaintStyle
	}
''')])
s('pstyle benign map',[(S,PS,'''	if op, ok := paintStyles[style]; ok {
		return op
	}
	return DrawPaintStyle
'''),(S,'func parseStyle(','''var paintStyles = map[string]PaintStyle{
	"D":  DrawPaintStyle,
	"F":  FillPaintStyle,
	"DF": DrawFillPaintStyle,
	"FD": DrawFillPaintStyle,
}

func parseStyle(''')])
WP='''	if c.style == "F" {
		fmt.Fprintf(w, " f\\n")
	} else if c.style == "FD" || c.style == "DF" {
		fmt.Fprintf(w, " b\\n")
	} else {
		fmt.Fprintf(w, " s\\n")
	}
'''
s('poly bug B S',[(W,WP,WP.replace(' s\\n',' S\\n'))])
s('poly bug DF',[(W,WP,WP.replace('c.style == "FD" || c.style == "DF"','c.style == "FD"'))])
s('poly bug fill stroke',[(W,WP,WP.replace(' b\\n',' f\\n'))])
s('poly benign op',[(W,WP,'''	op := "s"
	switch c.style {
	case "F":
		op = "f"
	case "FD", "DF":
		op = "b"
	}
	fmt.Fprintf(w, " %s\\n", op)
''')])
s('poly benign closepath first',[(W,WP,WP.replace(' b\\n',' h B\\n').replace(' s\\n',' h S\\n'))])
RW='''	stream += fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f re %s\\n", c.x, c.pageHeight-c.y, c.width, c.height, c.style)
'''
s('rect benign writes',[(R,RW,'''	stream += fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f re", c.x, c.pageHeight-c.y, c.width, c.height)
	stream += " " + string(c.style) + "\\n"
''')])
s('rect bug style',[(R,RW,RW.replace('c.style)','DrawPaintStyle)'))])
s('rect bug const',[(S,'DrawFillPaintStyle PaintStyle = "B"','DrawFillPaintStyle PaintStyle = "b*"')])
LW='''	switch c.lineType {
	case "dashed":
		fmt.Fprint(w, "[5] 2 d\\n")
	case "dotted":
		fmt.Fprint(w, "[2 3] 11 d\\n")
	default:
		fmt.Fprint(w, "[] 0 d\\n")
	}
'''
s('line bug default',[(LT,LW,LW.replace('''	default:
		fmt.Fprint(w, "[] 0 d\\n")
''','''	case "", "solid":
		fmt.Fprint(w, "[] 0 d\\n")
'''))])
s('line bug dashed dash',[(LT,LW,LW.replace('[5] 2 d','[] 5 d'))])
s('line bug swapped',[(LT,LW,LW.replace('"dashed"','"dottedX"').replace('"dotted"','"dashed"').replace('"dottedX"','"dotted"'))])
s('line benign var',[(LT,LW,'''	pattern := "[] 0"
	if c.lineType == "dashed" {
		pattern = "[5] 2"
	} else if c.lineType == "dotted" {
		pattern = "[2 3] 11"
	}
	fmt.Fprintf(w, "%s d\\n", pattern)
''')])
s('colour bug text cmyk',[('cache_content_text_color_cmyk.go','float64(c.y)/100, float64(c.k)/100, colorTypeFillCMYK','float64(c.y)/100, float64(c.k)/100, colorTypeStrokeCMYK')])
s('colour bug cmyk order',[('cache_content_color_cmyk.go','float64(c.m)/100, float64(c.y)/100','float64(c.y)/100, float64(c.m)/100')])
s('colour bug cmyk 255',[('cache_content_color_cmyk.go','float64(c.k)/100','float64(c.k)/255')])
s('colour bug gray const',[('cache_content_gray.go','const grayTypeFill = "g"\nconst grayTypeStroke = "G"','const grayTypeFill = "G"\nconst grayTypeStroke = "g"')])
s('colour benign gray write',[('cache_content_gray.go','	fmt.Fprintf(w, "%.2f %s\\n", c.scale, c.grayType)\n','	fmt.Fprintf(w, "%.2f ", c.scale)\n	io.WriteString(w, c.grayType+"\\n")\n')])
s('colour benign cmyk vars',[('cache_content_color_cmyk.go','	fmt.Fprintf(w, "%.2f %.2f %.2f %.2f %s\\n", float64(c.c)/100, float64(c.m)/100, float64(c.y)/100, float64(c.k)/100, c.colorType)\n','''	part := func(v uint8) float64 { return float64(v) / 100 }
	fmt.Fprintf(w, "%.2f %.2f %.2f %.2f %s\\n", part(c.c), part(c.m), part(c.y), part(c.k), c.colorType)
''')])
PH='''		if align == Right {
			diff := info.placeHolderWidth - textWidthPdfUnit
			contentText.x = contentText.x + diff
		} else if align == Center {
			diff := info.placeHolderWidth - textWidthPdfUnit
			contentText.x = contentText.x + diff/2
		}
'''
s('ph bug center',[(G,PH,PH.replace('diff/2','diff'))])
s('ph bug middle',[(G,PH,PH.replace('align == Center','align == Middle'))])
s('ph bug clamp',[(G,PH,PH.replace('''align == Center {
			diff := info.placeHolderWidth - textWidthPdfUnit
''','''align == Center {
			diff := info.placeHolderWidth - textWidthPdfUnit
			if diff < 0 {
				diff = 0
			}
'''))])
s('ph benign switch',[(G,PH,'''		diff := info.placeHolderWidth - textWidthPdfUnit
		switch align {
		case Right:
			contentText.x += diff
		case Center:
			contentText.x += diff * 0.5
		}
''')])
TA='''	if align == "right" {
		textOption.Align = Right | Middle
	} else if align == "center" {
		textOption.Align = Center | Middle
	} else {
		textOption.Align = Left | Middle
	}
'''
s('tbl bug center',[(TB,TA,TA.replace('Center | Middle','Center'))])
s('tbl bug centre',[(TB,TA,TA.replace('"center"','"middle"'))])
s('tbl bug or',[(TB,TA,TA.replace('textOption.Align = Right','textOption.Align |= Right'))])
s('tbl benign switch',[(TB,TA,'''	switch align {
	case "center":
		textOption.Align = Center | Middle
	case "right":
		textOption.Align = Right | Middle
	default:
		textOption.Align = Left | Middle
	}
''')])
s('tbl benign horizontal',[(TB,TA,'''	horizontal := Left
	if align == "right" {
		horizontal = Right
	} else if align == "center" {
		horizontal = Center
	}
	textOption.Align = horizontal | Middle
''')])
s('tbl benign helper',[(TB,TA,'''	textOption.Align = columnAlign(align)
'''),(TB,'func (t *tableLayout) drawCell(','''func columnAlign(align string) int {
	switch align {
	case "right":
		return Right | Middle
	case "center":
		return Center | Middle
	}
	return Left | Middle
}

func (t *tableLayout) drawCell(''')])
s('tbl bug border else',[(TB,'''	}
	if borderStyle.Right {''','''	} else if borderStyle.Right {''')])
s('tbl bug border y',[(TB,'t.pdf.Line(x1-half, y2, x2+half, y2)','t.pdf.Line(x1-half, y2, x2+half, y1)')])
s('tbl bug border none',[(TB,'if borderStyle.Width <= 0 {','if borderStyle.Width <= 0 || !borderStyle.Top && !borderStyle.Bottom {')])
s('tbl benign border none',[(TB,'if borderStyle.Width <= 0 {','if borderStyle.Width <= 0 || !borderStyle.Top && !borderStyle.Bottom && !borderStyle.Left && !borderStyle.Right {')])
s('tbl benign border rev',[(TB,'t.pdf.Line(x1-half, y2, x2+half, y2)','t.pdf.Line(x2+half, y2, x1-half, y2)')])
JM='''	case color.CMYKModel:
		info.colspace = "DeviceCMYK"
'''
s('img bug cmyk',[(P,JM,JM.replace('DeviceCMYK','DeviceRGB'))])
s('img bug gray gone',[(P,'''	case color.GrayModel:
		info.colspace = "DeviceGray"
''','')])
PC='''	case 0, 4:
		colspace = "DeviceGray"
	case 2, 6:
		colspace = "DeviceRGB"
'''
s('img bug ct4',[(P,PC,'''	case 0:
		colspace = "DeviceGray"
	case 2, 4, 6:
		colspace = "DeviceRGB"
''')])
s('img bug ct4 gone',[(P,PC,PC.replace('0, 4','0'))])
s('img bug alpha',[(P,'	if ct[0] >= 4 {','	if ct[0] > 4 {')])
s('img bug colors',[(P,'	if colspace == "DeviceRGB" {\n		colors = 3','	if ct[0] == 6 {\n		colors = 3')])
s('img benign colors',[(P,'	if colspace == "DeviceRGB" {\n		colors = 3','	if ct[0] == 6 || ct[0] == 2 {\n		colors = 3')])
s('img benign ct if',[(P,PC+'''	case 3:
		colspace = "Indexed"
	default:
		return errors.New("Unknown color type")
	}
''','''	case 0, 4:
		colspace = "DeviceGray"
	case 2, 6:
		colspace = "DeviceRGB"
	case 3:
		colspace = "Indexed"
	}
	if colspace == "" {
		return errors.New("Unknown color type")
	}
''')])
s('img benign ct helper',[(P,'''	var colspace string
	switch ct[0] {
'''+PC+'''	case 3:
		colspace = "Indexed"
	default:
		return errors.New("Unknown color type")
	}
''','''	colspace, err := pngColspace(ct[0])
	if err != nil {
		return err
	}
'''),(P,'func parsePng(','''func pngColspace(ct byte) (string, error) {
	switch ct {
	case 0, 4:
		return "DeviceGray", nil
	case 2, 6:
		return "DeviceRGB", nil
	case 3:
		return "Indexed", nil
	}
	return "", errors.New("Unknown color type")
}

func parsePng(''')])
s('img benign alpha eq',[(P,'	if ct[0] >= 4 {','	if ct[0] == 4 || ct[0] == 6 {')])
s('img benign jpg helper',[(P,'''	switch imgConfig.ColorModel {
	case color.YCbCrModel:
		info.colspace = "DeviceRGB"
	case color.GrayModel:
		info.colspace = "DeviceGray"
'''+JM+'''	default:
		return errors.New("color model not support")
	}
''','''	colspace := ""
	switch imgConfig.ColorModel {
	case color.YCbCrModel:
		colspace = "DeviceRGB"
	case color.GrayModel:
		colspace = "DeviceGray"
	case color.CMYKModel:
		colspace = "DeviceCMYK"
	}
	if colspace == "" {
		return errors.New("color model not support")
	}
	info.colspace = colspace
''')])
s('fstyle benign rune',[(FS,FB,FB.replace('strings.Contains(fontStyle, "U")',"strings.ContainsRune(fontStyle, 'U')"))])
s('fstyle benign byte',[(FS,FB,FB.replace('strings.Contains(fontStyle, "U")',"strings.IndexByte(fontStyle, 'U') != -1"))])
s('text benign border andnot',[(T,'	if c.cellOpt.Border&Right == Right {','	if c.cellOpt.Border&^Right != c.cellOpt.Border {')])
s('tbl benign align parts',[(TB,TA,TA.replace('textOption.Align = Center | Middle','textOption.Align = Center\n		textOption.Align |= Middle'))])
s('text benign cell method',[(T,'''	if err := c.drawBorderZ''','')] if False else [(T,CY,CY.replace('c.cellOpt.Align&Bottom == Bottom','c.aligned(Bottom)').replace('c.cellOpt.Align&Middle == Middle','c.aligned(Middle)')),(T,'func (c *cacheContentText) calX() (','''func (c *cacheContentText) aligned(bit int) bool {
	return c.cellOpt.Align&bit == bit
}

func (c *cacheContentText) calX() (''')])
s('float benign method',[(L,F,F.replace('cacheFont.cellOpt.Float == 0 || cacheFont.cellOpt.Float&Right == Right || cacheFont.contentType == ContentTypeText','cacheFont.goesRight()')),(L,'func (l *listCacheContent) write(','''func (c *cacheContentText) goesRight() bool {
	if c.contentType == ContentTypeText || c.cellOpt.Float == 0 {
		return true
	}
	return c.cellOpt.Float&Right == Right
}

func (l *listCacheContent) write(''')])
s('line benign table',[(LT,LW,'''	pattern, ok := dashPatterns[c.lineType]
	if !ok {
		pattern = "[] 0 d\\n"
	}
	if _, err := io.WriteString(w, pattern); err != nil {
		return err
	}
'''),(LT,'func (c *cacheContentLineType) write(','''var dashPatterns = map[string]string{
	"dashed": "[5] 2 d\\n",
	"dotted": "[2 3] 11 d\\n",
}

func (c *cacheContentLineType) write('''),(LT,'import (\n	"fmt"\n','import (\n')])
s('img benign table',[(P,PC,'''	case 0, 4:
		colspace = pngGray
	case 2, 6:
		colspace = pngColor
'''),(P,'func parsePng(','''var pngGray, pngColor = "DeviceGray", "DeviceRGB"

func parsePng(''')])
s('size benign reflect',[(G,'''	case int16:
		return float64(size), nil
''','''	case int16:
		f := float64(size)
		return f, nil
''')])
