import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
show('panic in image',[('image_obj.go','	err := i.parse()','	err := i.parse()')])
show('createSMask uses GetRect',[('gopdf.go','if opts.Rect, err = imgobj.getRect(); err != nil {','if opts.Rect = imgobj.GetRect(); err != nil {')])
show('debug print',[('pages_obj.go','	io.WriteString(w, "<<\\n")','	p.test()\n	io.WriteString(w, "<<\\n")')])
show('println',[('gopdf.go','func (gp *GoPdf) SetLineWidth(width float64) {','func (gp *GoPdf) SetLineWidth(width float64) {\n	println(width)')])
show('panic',[('gopdf.go','func (gp *GoPdf) SetLineWidth(width float64) {','func (gp *GoPdf) SetLineWidth(width float64) {\n	if width < 0 { panic("x") }')])
show('func value',[('gopdf.go','func (gp *GoPdf) SetLineWidth(width float64) {','var stop = log.Fatal\n\nfunc (gp *GoPdf) SetLineWidth(width float64) {\n	if width < 0 { stop("x") }')])
show('benign must',[('gopdf.go','''		log.Fatalf("%s", err.Error())
	}
	return b
}''','''		stopOn(err)
	}
	return b
}

func stopOn(err error) { log.Fatalf("%s", err.Error()) }''')])
