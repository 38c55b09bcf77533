import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
G='gopdf.go'
W='''		if flushErr := bw.Flush(); err == nil {
			err = flushErr
		}
		if err != nil {
			w.CloseWithError(err)
		} else {
			w.Close()
		}
'''
show('close plain',[(G,W,W.replace('w.CloseWithError(err)','w.Close()'))])
show('no close on err',[(G,W,W.replace('w.CloseWithError(err)','return'))])
show('flush after',[(G,W,'''		if err != nil {
			w.CloseWithError(err)
		} else {
			w.Close()
		}
		bw.Flush()
''')])
show('no flush',[(G,W,'''		if err != nil {
			w.CloseWithError(err)
		} else {
			w.Close()
		}
''')])
show('defer close only',[(G,W,'		bw.Flush()\n		_ = err\n'),(G,'		bw := bufio.NewWriter(w)\n		var err error\n','		defer w.Close()\n		bw := bufio.NewWriter(w)\n		var err error\n')])
show('unknown format returns',[(G,'			err = jpeg.Encode(bw, img, nil)\n		}\n','			err = jpeg.Encode(bw, img, nil)\n		default:\n			return\n		}\n')])
show('abandon',[(G,'	imgh, err := ImageHolderByReader(bufio.NewReader(r))\n','	if opts.Format != "png" && opts.Format != "jpeg" {\n		return errors.New("format")\n	}\n	imgh, err := ImageHolderByReader(bufio.NewReader(r))\n')])
show('reader short',[('image_holder.go','''func newImageBuffByReader(r io.Reader) (*imageBuff, error) {

	b, err := io.ReadAll(r)
''','''func newImageBuffByReader(r io.Reader) (*imageBuff, error) {

	b, err := io.ReadAll(io.LimitReader(r, 1<<24))
''')])
show('png err dropped',[(G,'err = png.Encode(bw, img)','png.Encode(bw, img)')])
show('jpeg err shadow',[(G,'			err = jpeg.Encode(bw, img, nil)\n','			if err := jpeg.Encode(bw, img, nil); err != nil {\n				break\n			}\n')])
show('benign CloseWithError(err)',[(G,W,'''		if err == nil {
			err = bw.Flush()
		}
		w.CloseWithError(err)
''')])
show('benign helper',[(G,W,'''		if err == nil {
			err = bw.Flush()
		}
		finish(w, err)
'''),(G,'func (gp *GoPdf) ImageFrom(','''func finish(w *io.PipeWriter, err error) {
	if err != nil {
		w.CloseWithError(err)
		return
	}
	w.Close()
}

func (gp *GoPdf) ImageFrom(''')])
show('benign named fn',[(G,'''	go func() {
		bw := bufio.NewWriter(w)
		var err error
		switch opts.Format {
		case "png":
			err = png.Encode(bw, img)
		case "jpeg":
			err = jpeg.Encode(bw, img, nil)
		}

'''+W+'	}()\n','	go func() {\n		w.CloseWithError(encodeImg(w, img, opts.Format))\n	}()\n'),(G,'func (gp *GoPdf) ImageFrom(','''func encodeImg(w io.Writer, img image.Image, format string) error {
	bw := bufio.NewWriter(w)
	switch format {
	case "png":
		if err := png.Encode(bw, img); err != nil {
			return err
		}
	case "jpeg":
		if err := jpeg.Encode(bw, img, nil); err != nil {
			return err
		}
	}
	return bw.Flush()
}

func (gp *GoPdf) ImageFrom(''')])
show('bug named fn no flush',[(G,'''	go func() {
		bw := bufio.NewWriter(w)
		var err error
		switch opts.Format {
		case "png":
			err = png.Encode(bw, img)
		case "jpeg":
			err = jpeg.Encode(bw, img, nil)
		}

'''+W+'	}()\n','	go func() {\n		w.CloseWithError(encodeImg(w, img, opts.Format))\n	}()\n'),(G,'func (gp *GoPdf) ImageFrom(','''func encodeImg(w io.Writer, img image.Image, format string) error {
	bw := bufio.NewWriter(w)
	switch format {
	case "png":
		if err := png.Encode(bw, img); err != nil {
			return err
		}
		return nil
	case "jpeg":
		if err := jpeg.Encode(bw, img, nil); err != nil {
			return err
		}
	}
	return bw.Flush()
}

func (gp *GoPdf) ImageFrom(''')])
show('benign defer close',[(G,W,'''		if err == nil {
			err = bw.Flush()
		}
		if err != nil {
			w.CloseWithError(err)
		}
'''),(G,'		bw := bufio.NewWriter(w)\n		var err error\n','		defer w.Close()\n		bw := bufio.NewWriter(w)\n		var err error\n')])
show('benign buffer',[(G,'''	r, w := io.Pipe()
	go func() {
		bw := bufio.NewWriter(w)
		var err error
		switch opts.Format {
		case "png":
			err = png.Encode(bw, img)
		case "jpeg":
			err = jpeg.Encode(bw, img, nil)
		}

'''+W+'''	}()

	imgh, err := ImageHolderByReader(bufio.NewReader(r))
''','''	var r bytes.Buffer
	var err error
	switch opts.Format {
	case "png":
		err = png.Encode(&r, img)
	case "jpeg":
		err = jpeg.Encode(&r, img, nil)
	}
	if err != nil {
		return err
	}

	imgh, err := ImageHolderByReader(bufio.NewReader(&r))
''')])
