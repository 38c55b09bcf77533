import sys,os
os.environ['MUT_ID']='N05'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
I='cache_content_image.go'; R='cache_content_rotate.go'; C='content_obj.go'; G='gopdf.go'
CM='''	return fmt.Sprintf("%.5f %.5f %.5f\\n %.5f %.2f %.2f cm\\n 1 0 0\\n 1 %.2f %.2f cm\\n", c, s, -s, c, x, cy, -x, -cy)
'''
s('bug sign s',[(R,CM,CM.replace('c, s, -s, c','c, -s, s, c'))])
s('bug cy',[(R,CM,CM.replace('-x, -cy','-x, cy'))])
s('bug y',[(R,'	cy := pageHeight - y','	cy := y')])
s('bug deg',[(R,'degreeAngle * (math.Pi / 180)','degreeAngle * (math.Pi / 360)')])
s('bug rad',[(R,'degreeAngle * (math.Pi / 180)','degreeAngle')])
s('bug mod',[(R,'degreeAngle * (math.Pi / 180)','math.Mod(degreeAngle, 180) * (math.Pi / 180)')])
s('benign mul',[(R,'degreeAngle * (math.Pi / 180)','degreeAngle * math.Pi / 180')])
s('benign sincos',[(R,'''	c := math.Cos(radianAngle)
	s := math.Sin(radianAngle)
''','''	s, c := math.Sincos(radianAngle)
''')])
s('benign one matrix',[(R,CM,'''	return fmt.Sprintf("%.5f %.5f %.5f\\n %.5f %.2f %.2f cm\\n", c, s, -s, c, x-c*x+s*cy, cy-s*x-c*cy)
''')])
s('bug one matrix',[(R,CM,'''	return fmt.Sprintf("%.5f %.5f %.5f\\n %.5f %.2f %.2f cm\\n", c, s, -s, c, x-c*x-s*cy, cy-s*x-c*cy)
''')])
s('benign two',[(R,CM,'''	rotate := fmt.Sprintf("%.5f %.5f %.5f\\n %.5f %.2f %.2f cm\\n", c, s, -s, c, x, cy)
	back := fmt.Sprintf(" 1 0 0\\n 1 %.2f %.2f cm\\n", -x, -cy)
	return rotate + back
''')])
s('benign three',[(R,CM,'''	return fmt.Sprintf("1 0 0 1 %.2f %.2f cm\\n %.5f %.5f %.5f %.5f 0 0 cm\\n 1 0 0 1 %.2f %.2f cm\\n", x, cy, c, s, -s, c, -x, -cy)
''')])
s('bug reset',[(R,'	if cc.isReset == true {\n		if _, err := io.WriteString(w, "Q\\n")','	if cc.isReset == true {\n		if _, err := io.WriteString(w, "Q\\nQ\\n")')])
s('benign reset',[(R,'cc.isReset == true','cc.isReset')])
CR='''	if c.crop != nil {
		w = c.crop.Width
		h = c.crop.Height
	}

	x := c.x + w/2
	y := c.y + h/2
'''
s('bug center crop',[(I,CR,CR.replace('		h = c.crop.Height\n',''))])
s('bug center',[(I,CR,CR.replace('c.y + h/2','c.y - h/2'))])
s('benign center',[(I,CR,CR.replace('w/2','0.5*w'))])
MK='''	if c.horizontalFlip {
		x = -x
		angle = -angle
	}
	if c.verticalFlip {
		y = -y
		pageHeight = -pageHeight
		angle = -angle
	}
'''
s('bug mask flip angle',[(I,MK,MK.replace('		x = -x\n		angle = -angle\n','		x = -x\n'))])
s('bug mask flip ph',[(I,MK,MK.replace('		pageHeight = -pageHeight\n',''))])
s('bug mask else',[(I,MK,MK.replace('	}\n	if c.vert','	} else if c.vert'))])
s('bug mask angle',[(I,'	angle := c.maskAngle + c.imageAngle\n','	angle := c.maskAngle - c.imageAngle\n')])
s('bug mask zero',[(I,'	if angle == 0 {\n		return ""\n','	if c.maskAngle == 0 {\n		return ""\n')])
s('benign mask zero',[(I,'	if angle == 0 {\n		return ""\n	}\n','')])
s('benign mask split',[(I,MK,'''	mirrored := c.horizontalFlip != c.verticalFlip
	if c.horizontalFlip {
		x = -x
	}
	if c.verticalFlip {
		y, pageHeight = -y, -pageHeight
	}
	if mirrored {
		angle = -angle
	}
''')])
FL='''		fh := "1"
		if c.horizontalFlip {
			fh = "-1"
		}

		fv := "1"
		if c.verticalFlip {
			fv = "-1"
		}

		contentStream += fmt.Sprintf("%s 0 0 %s 0 0 cm\\n", fh, fv)
'''
s('bug flip order',[(I,FL,FL.replace(', fh, fv)',', fv, fh)'))])
s('benign flip numbers',[(I,FL,'''		fh, fv := 1, 1
		if c.horizontalFlip {
			fh = -1
		}
		if c.verticalFlip {
			fv = -1
		}
		contentStream += fmt.Sprintf("%d 0 0 %d 0 0 cm\\n", fh, fv)
''')])
s('benign flip helper',[(I,FL,'''		contentStream += flipMatrix(c.horizontalFlip, c.verticalFlip)
'''),(I,'func (c *cacheContentImage) write(','''func flipMatrix(horizontal, vertical bool) string {
	switch {
	case horizontal && vertical:
		return "-1 0 0 -1 0 0 cm\\n"
	case horizontal:
		return "-1 0 0 1 0 0 cm\\n"
	case vertical:
		return "1 0 0 -1 0 0 cm\\n"
	}
	return ""
}

func (c *cacheContentImage) write(''')])
s('bug clip flip',[(I,'			clippingX = -clippingX - c.crop.Width','			clippingX = -clippingX')])
s('bug clip y',[(I,'		clippingY := y - c.crop.Height','		clippingY := y - height')])
s('bug clip cropx',[(I,'		clippingX := x\n','		clippingX := x - c.crop.X\n')])
s('bug crop y',[(I,'		y += c.crop.Y - height','		y -= c.crop.Y + height')])
s('bug crop x',[(I,'		x -= c.crop.X\n','		x += c.crop.X\n')])
s('bug crop flip order',[(I,'''		x -= c.crop.X
		if c.horizontalFlip {
			x = -x - width
		}
''','''		if c.horizontalFlip {
			x = -x - width
		}
		x -= c.crop.X
''')])
s('bug plain flip',[(I,'''		y -= height

		if c.horizontalFlip {
			x = -x - width
		}
''','''		y -= height

		if c.horizontalFlip {
			x = -x
		}
''')])
s('bug plain flip y',[(I,'''	} else {
		y -= height
''','''	} else {
		if !c.verticalFlip {
			y -= height
		}
''')])
s('benign common flips',[(I,'''		x -= c.crop.X
		if c.horizontalFlip {
			x = -x - width
		}

		y += c.crop.Y - height
		if c.verticalFlip {
			y = -y - height
		}
	} else {
		y -= height

		if c.horizontalFlip {
			x = -x - width
		}

		if c.verticalFlip {
			y = -y - height
		}
	}
''','''		x -= c.crop.X
		y += c.crop.Y
	}
	y -= height
	if c.horizontalFlip {
		x = -(x + width)
	}
	if c.verticalFlip {
		y = -(y + height)
	}
''')])
WR='''	contentStream += fmt.Sprintf("q\\n %s %0.2f 0 0\\n %0.2f %0.2f %0.2f cm /I%d Do \\nQ\\n", maskImageRotateMat, width, height, x, y, c.index+1)

	contentStream += "Q\\n"
'''
s('benign parts',[(I,WR,'''	contentStream += "q\\n " + maskImageRotateMat
	contentStream += fmt.Sprintf(" %0.2f 0 0\\n %0.2f %0.2f %0.2f cm ", width, height, x, y)
	contentStream += fmt.Sprintf("/I%d Do \\nQ\\nQ\\n", c.index+1)
''')])
s('bug parts',[(I,WR,WR.replace('width, height, x, y','height, width, x, y'))])
s('bug no clip flip only',[(I,'''		contentStream += fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f re W* n\\n", ''','''		if !c.horizontalFlip || !c.verticalFlip {
			contentStream += ""
		}
		contentStream += fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f re n\\n", ''')])
s('benign stream writes',[(I,'''	for _, extGStateIndex := range c.extGStateIndexes {
		contentStream += fmt.Sprintf("/GS%d gs\\n", extGStateIndex)
	}
''','''	if _, err := io.WriteString(writer, contentStream); err != nil {
		return err
	}
	contentStream = ""
	for _, extGStateIndex := range c.extGStateIndexes {
		if _, err := fmt.Fprintf(writer, "/GS%d gs\\n", extGStateIndex); err != nil {
			return err
		}
	}
''')])
s('bug wiring',[(C,'		verticalFlip:     opts.VerticalFlip,\n		horizontalFlip:   opts.HorizontalFlip,\n','		verticalFlip:     opts.HorizontalFlip,\n		horizontalFlip:   opts.VerticalFlip,\n')])
s('bug wiring mask',[(C,'		maskAngle = opts.Mask.DegreeAngle\n','		maskAngle = opts.DegreeAngle\n')])
s('bug wiring crop',[(C,'		crop:             crop,\n','').__class__((C,'		crop = &cropOpts\n','		_ = cropOpts\n'))])
s('benign wiring',[(C,'	return &cacheContentImage{\n		withMask:         withMask,','	image := cacheContentImage{\n		withMask:         withMask,'),(C,'''		extGStateIndexes: opts.extGStateIndexes,
	}
}

// AppendStreamImage''','''		extGStateIndexes: opts.extGStateIndexes,
	}
	return &image
}

// AppendStreamImage''')])
s('bug rotate api',[(G,'appendRotate(angle, x, y)','appendRotate(-angle, x, y)')])
s('benign transl helper',[(R,CM,'''	return fmt.Sprintf("%.5f %.5f %.5f\\n %.5f %.2f %.2f cm\\n%s", c, s, -s, c, x, cy, translation(-x, -cy))
'''),(R,'func computeRotate','''func translation(x, y float64) string {
	return fmt.Sprintf(" 1 0 0\\n 1 %.2f %.2f cm\\n", x, y)
}

func computeRotate''')])
s('benign builder',[(I,'	contentStream := "q\\n"\n','	contentStream := ""\n	contentStream += "q\\n"\n')])
