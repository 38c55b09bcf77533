from mut import show
F='pdf_protection.go'
K='''	tmp2 := make([]byte, 0, len(p.encryptionKey)+5)
	tmp2 = append(tmp2, p.encryptionKey...)
	tmp2 = append(tmp2, tmp[0], tmp[1], tmp[2], 0, 0)
'''
show('append to key',[(F,K,'''	tmp2 := append(p.encryptionKey, tmp[0], tmp[1], tmp[2], 0, 0)
''')])
show('key updated',[(F,K,K+'''	p.encryptionKey = tmp2
''')])
show('pad in place',[(F,'''	padded := make([]byte, 0, len(pass)+len(protectionPadding))
	padded = append(padded, pass...)
	padded''','''	padded := pass
	padded''')])
show('owner in place',[(F,'''	dest := make([]byte, len(userPassWithPadding))
	cip.XORKeyStream(dest, userPassWithPadding)
	return dest, nil''','''	cip.XORKeyStream(userPassWithPadding, userPassWithPadding)
	return append([]byte{}, userPassWithPadding...), nil'''),(F,'''	padded = append(padded, protectionPadding...)
	return padded[0:32]''','''	if len(pass) >= 32 {
		return pass[:32]
	}
	padded = append(padded, protectionPadding...)
	return padded[0:32]''')])
show('padding encrypted in place',[(F,'''	dest := make([]byte, len(protectionPadding))
	cip.XORKeyStream(dest, protectionPadding)''','''	dest := protectionPadding
	cip.XORKeyStream(dest, protectionPadding)''')])
show('sum into key',[(F,'''	tmp3 := md5.Sum(tmp2)
	return tmp3[0:10]''','''	m := md5.New()
	m.Write(tmp2)
	return m.Sum(p.encryptionKey[:0])[:10]''')])
show('last key cached',[(F,'''	tmp3 := md5.Sum(tmp2)
	return tmp3[0:10]''','''	tmp3 := md5.Sum(tmp2)
	if len(p.uValue) == 0 {
		p.uValue = tmp3[:]
	}
	return tmp3[0:10]''')])
show('number dropped',[(F,'tmp[0], tmp[1], tmp[2], 0, 0','0, 0, 0, 0, 0'),(F,'''	binary.LittleEndian.PutUint32(tmp, uint32(n))
''','''	binary.LittleEndian.PutUint32(tmp, uint32(5))
''')])
show('document key zeroed at output',[('encryption_obj.go','''	//write''','''	//write'''),('gopdf.go','''func (gp *GoPdf) Close()''','''func (gp *GoPdf) Close()''')] if 0 else [('gopdf.go','''func (gp *GoPdf) prepare() {
''','''func (gp *GoPdf) prepare() {
	if gp.pdfProtection != nil {
		k := gp.pdfProtection.encryptionKey
		for i := range k {
			k[i] |= 0
		}
	}
''')])
show('protection copied and changed',[('gopdf.go','''func (gp *GoPdf) prepare() {
''','''func (gp *GoPdf) prepare() {
	if gp.pdfProtection != nil {
		gp.pdfProtection.encryptionKey = append([]byte{}, gp.pdfProtection.oValue[:5]...)
	}
''')])
show('benign hash',[(F,K+'''	tmp3 := md5.Sum(tmp2)
	return tmp3[0:10]''','''	m := md5.New()
	m.Write(p.encryptionKey)
	m.Write(tmp[:3])
	m.Write([]byte{0, 0})
	return m.Sum(nil)[:10]''')])
show('benign helper',[(F,K,'''	tmp2 := keyWithNumber(p.encryptionKey, tmp)
'''),(F,'func rc4Cip','''func keyWithNumber(key []byte, tmp []byte) []byte {
	out := make([]byte, len(key), len(key)+5)
	copy(out, key)
	return append(out, tmp[0], tmp[1], tmp[2], 0, 0)
}

func rc4Cip''')])
show('benign array',[(F,'''	tmp := make([]byte, 8, 8)
	binary.LittleEndian.PutUint32(tmp, uint32(n))
''','''	var tmp [4]byte
	tmp[0] = byte(n)
	tmp[1] = byte(n >> 8)
	tmp[2] = byte(n >> 16)
	_ = binary.LittleEndian
''')])
show('benign shared rc4',[(F,'''	cip, err := rc4.NewCipher(p.encryptionKey)
	if err != nil {
		return nil, err
	}
	dest := make([]byte, len(protectionPadding))
	cip.XORKeyStream(dest, protectionPadding)
	return dest, nil''','''	return rc4Cip(p.encryptionKey, protectionPadding)''')])
