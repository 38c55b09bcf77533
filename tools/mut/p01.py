import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
G='gopdf.go'
show('mask not protected',[(G,'		maskImgobj.setProtection(gp.protection())\n','')])
show('unicode not protected',[(G,'	unicodemap.setProtection(gp.protection())\n','')])
show('image protected only w/o mask',[(G,'		imgobj.setProtection(gp.protection())\n','		if opts.Mask == nil {\n			imgobj.setProtection(gp.protection())\n		}\n')])
show('smask not protected',[('image_obj.go','	smk.setProtection(i.protection())\n','')])
show('wrong objid',[('content_obj.go','c.protection().objectkey(objID), buff','c.protection().objectkey(objID-1), buff')])
show('wrong objid const',[('device_rgb_obj.go','objectkey(objID)','objectkey(0)')])
show('dict plain if small',[('pdf_dictionary_obj.go','	if p.protection() != nil {','	if p.protection() != nil && zbuff.Len() > 64 {')])
show('annot plain when no paren',[('annot_obj.go','	if protection != nil {','	if protection != nil && strings.ContainsAny(url, "?&") {')])
show('content writes plain buf',[('content_obj.go','		if _, err := io.Copy','		if _, err := io.Copy')])
show('rc4 in place',[('pdf_protection.go','	dest := make([]byte, len(src))\n	cip.XORKeyStream(dest, src)','	dest := src\n	cip.XORKeyStream(dest, src)')])
show('rc4 short',[('pdf_protection.go','	dest := make([]byte, len(src))\n	cip','	if len(src) == 0 {\n		return src, nil\n	}\n	if len(src) > 1<<20 {\n		return src, nil\n	}\n	dest := make([]byte, len(src))\n	cip')])
show('enc dict cond',[(G,'	if gp.isUseProtection() && gp.encryptionObjID == 0 {','	if gp.isUseInfo && gp.encryptionObjID == 0 && gp.pdfProtection != nil {')])
show('protect only if pass',[(G,'	if gp.isUseProtection() {\n		gp.pdfProtection = gp','	if gp.isUseProtection() && len(gp.config.Protection.UserPass) > 0 {\n		gp.pdfProtection = gp')])
show('group objid const',[('transparency_xobject_group.go','objectkey(objId)','objectkey(s.Index)')])
show('benign helper',[('device_rgb_obj.go','''		tmp, err := rc4Cip(d.protection().objectkey(objID), d.data)
''','''		tmp, err := encryptFor(d.protection(), objID, d.data)
'''),('pdf_protection.go','func rc4Cip','''func encryptFor(p *PDFProtection, id int, b []byte) ([]byte, error) {
	key := p.objectkey(id)
	return rc4Cip(key, b)
}

func rc4Cip''')])
show('benign helper2',[('unicode_map.go','if u.protection() != nil {','prot := u.protection()\n	if prot != nil {'),('unicode_map.go','u.protection().objectkey','prot.objectkey')])
show('benign ctor',[(G,'	unicodemap.setProtection(gp.protection())\n',''),(G,'	unicodemap := new(UnicodeMap)\n','	unicodemap := &UnicodeMap{pdfProtection: gp.pdfProtection}\n')])
show('benign start',[(G,'	if gp.isUseProtection() {\n		gp.pdfProtection = gp.createProtection()\n	}\n','	gp.setupProtection()\n'),(G,'func (gp *GoPdf) isUseProtection','func (gp *GoPdf) setupProtection() {\n	if !gp.config.Protection.UseProtection {\n		return\n	}\n	gp.pdfProtection = gp.createProtection()\n}\n\nfunc (gp *GoPdf) isUseProtection')])
