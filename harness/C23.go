package dxsvalue

// Saving to and loading from files.

// c23before puts the file into some earlier state.
func c23before(f string, n int) {
	switch vxChoose(4) {
	case 1:
		vxFileSet(f, nil)
	case 2:
		vxFileSet(f, vxBytes(2))
	case 3:
		b := make([]byte, n+5)
		for i := range b {
			b[i] = 'x'
		}
		b[n] = vxByte()
		vxFileSet(f, b)
	}
}

func c23sizes() int {
	sizes := []int{0, 1, 2, 3, 4, 511, 512, 513, 1024, 1025, 4097, 32769, 65537}
	return sizes[vxChoose(len(sizes))]
}

// vhC23_binary: a binary saved and loaded again, byte for byte.
func vhC23_binary() {
	f := vxScratch() + "/b.bin"
	n := c23sizes()
	s := vxPattern(n)
	ext := vxBool()
	node := &vxNode{k: nkBinary, s: s}
	if ext {
		node = &vxNode{k: nkExt, s: s, ext: vxByte()}
	}
	v := vxBuild(node)
	c23before(f, n)
	vxAssert(v.SaveBinaryToFile(f) == nil, "saving succeeds")
	vxReach("saved")
	got, ok := vxFileGet(f)
	vxAssert(ok, "file exists")
	vxAssert(len(got) == n, "file length")
	vxAssert(vxEq(string(got), s), "file content")
	vxHas(v, node, "saved value unchanged")
	w := NewValue(VT_Binary)
	old := vxBytes(vxChoose(2) * 3)
	w.SetBinary(old, true)
	vxAssert(w.SetBinaryFromFile(f) == nil, "loading succeeds")
	vxHas(w, &vxNode{k: nkBinary, s: s}, "loaded binary")
	x := NewValue(VT_ExBinary)
	t := vxByte()
	x.SetExtType(t)
	vxAssert(x.SetBinaryFromFile(f) == nil, "loading succeeds")
	vxHas(x, &vxNode{k: nkExt, s: s, ext: t}, "loaded extension")
}

// vhC23_read: ReadFile returns the whole file.
func vhC23_read() {
	f := vxScratch() + "/r"
	n := c23sizes()
	s := vxPattern(n)
	vxFileSet(f, []byte(s))
	b, err := ReadFile(f)
	vxReach("read")
	vxAssert(err == nil, "reading succeeds")
	vxAssert(len(b) == n, "length")
	vxAssert(vxEq(string(b), s), "content")
	got, ok := vxFileGet(f)
	vxAssert(vxAnd(ok, vxEq(string(got), s)), "file unchanged")
}

func c23node() *vxNode {
	switch vxChoose(8) {
	case 0:
		return &vxNode{k: nkObject}
	case 1:
		return nArr()
	case 2:
		return nObj1(jStr(1), nStr(jStr(1)))
	case 3:
		i := vxI64()
		vxAssume(vxAnd(i > -300, i < 300))
		return nArr(nInt(i), nStr(jStr(2)))
	case 4:
		return nObj2("a", nArr(nKind(nkTrue), nKind(nkNull)), "b", nObj1("c", nKind(nkFalse)))
	case 5:
		return nStr(jStr(1))
	case 6:
		b := make([]byte, 600)
		for i := range b {
			b[i] = 'a'
		}
		b[511] = vxByte()
		vxAssume(vxRange(b[511], ' ', '~'))
		return nArr(nStr(string(b)))
	}
	return nKind(nkTrue)
}

// vhC23_json: a value written to a file and read back.
func vhC23_json() {
	f := vxScratch() + "/v.json"
	n := c23node()
	v := vxBuild(n)
	bom, format := vxBool(), vxBool()
	c23before(f, 80)
	vxAssert(Value2File(v, f, bom, format) == nil, "saving succeeds")
	vxReach("saved")
	got, ok := vxFileGet(f)
	vxAssert(ok, "file exists")
	if bom {
		vxAssert(len(got) >= 3 && got[0] == 0xEF && got[1] == 0xBB && got[2] == 0xBF, "byte order mark")
		got = got[3:]
	}
	r, st := jsonRead(got)
	vxAssert(st == jOK, "file holds a document")
	jSame(r, n, "reference reading of the file")
	w, err := NewValueFromJsonFile(f, vxBool())
	vxAssert(err == nil, "loading succeeds")
	jSame(jNodeOf(w), n, "loaded value")
	jSame(jNodeOf(v), n, "saved value unchanged")
}

// vhC23_load: MessagePack and YAML files load as their content does, with or
// without a byte order mark where the format allows one.
func vhC23_load() {
	f := vxScratch() + "/f"
	var w *DxValue
	var err error
	switch vxChoose(3) {
	case 0:
		n := vxTree(1)
		vxFileSet(f, Value2MsgPack(vxBuild(n), nil))
		w, err = NewValueFromMsgPackFile(f, vxBool())
		vxAssert(err == nil, "loading succeeds")
		vxHas(w, n, "loaded MessagePack")
	case 1:
		c := vxByte()
		vxAssume(vxRange(c, 'a', 'z'))
		doc := []byte("key: v" + string([]byte{c}) + "\nlist:\n  - q\n  - r" + string([]byte{c}) + "\n")
		n := nObj2("key", nStr("v"+string([]byte{c})), "list", nArr(nStr("q"), nStr("r"+string([]byte{c}))))
		if vxBool() {
			doc, n = []byte("- "+string([]byte{c})), nArr(nStr(string([]byte{c})))
		}
		if vxBool() {
			doc = append([]byte{0xEF, 0xBB, 0xBF}, doc...)
		}
		vxFileSet(f, doc)
		w, err = NewValueFromYamlFile(f, vxBool())
		vxAssert(err == nil, "loading succeeds")
		vxHas(w, n, "loaded YAML")
	case 2:
		c := vxByte()
		vxAssume(vxRange(c, 'a', 'z'))
		doc := []byte(`{"` + string([]byte{c}) + `":[1,true]}`)
		n := nObj1(string([]byte{c}), nArr(nInt(1), nKind(nkTrue)))
		switch vxChoose(6) {
		case 1:
			doc, n = []byte("7"), nInt(7)
		case 2:
			doc, n = []byte("[]"), nArr()
		case 3:
			doc, n = []byte(`"`+string([]byte{c})+`"`), nStr(string([]byte{c}))
		case 4:
			doc, n = []byte("\n5 "), nInt(5)
		case 5:
			doc, n = []byte(`"\u00ef\u00bb\u00bf"`), nStr("\u00ef\u00bb\u00bf")
		}
		if vxBool() {
			doc = append([]byte{0xEF, 0xBB, 0xBF}, doc...)
		}
		vxFileSet(f, doc)
		w, err = NewValueFromJsonFile(f, vxBool())
		vxAssert(err == nil, "loading succeeds")
		jSame(jNodeOf(w), n, "loaded JSON")
	}
	vxReach("loaded")
}

// vhC23_short: the shortest files load as their content does, with and
// without a byte order mark.
func vhC23_short() {
	f := vxScratch() + "/s"
	c := vxByte()
	vxAssume(vxRange(c, 'a', 'z'))
	docs := []string{"", "5", string([]byte{c}), "-", "[]", "{}", "- " + string([]byte{c}), string([]byte{c}) + ": 1", "\n"}
	doc := docs[vxChoose(len(docs))]
	yaml := vxBool()
	var v, w *DxValue
	var err, ferr error
	raw := []byte(doc)
	if vxBool() {
		raw = append([]byte{0xEF, 0xBB, 0xBF}, raw...)
	}
	vxFileSet(f, raw)
	if yaml {
		v, err = NewValueFromYaml([]byte(doc), false)
		w, ferr = NewValueFromYamlFile(f, vxBool())
	} else {
		v, err = NewValueFromJson([]byte(doc), false, vxBool())
		w, ferr = NewValueFromJsonFile(f, vxBool())
	}
	vxReach("loaded")
	vxAssert((err == nil) == (ferr == nil), "the file is accepted as its content is")
	if err == nil && ferr == nil {
		vxAssert((v == nil) == (w == nil), "a value as for the content")
		if v != nil && w != nil {
			jSame(jNodeOf(w), jNodeOf(v), "value as for the content")
		}
	}
}

// vhC23_errors: a file that cannot be read or written is an error that leaves
// the value as it was.
func vhC23_errors() {
	d := vxScratch()
	f := ""
	write := false
	switch vxChoose(4) {
	case 0:
		f = d + "/missing"
	case 1:
		f = d + "/nodir/file"
		write = vxBool()
	case 2:
		f = d
		write = vxBool()
	case 3:
		f = "/dev/full"
		write = true
	}
	s := vxStr(2)
	node := &vxNode{k: nkBinary, s: s}
	if vxBool() {
		node = &vxNode{k: nkExt, s: s, ext: vxByte()}
	}
	v := vxBuild(node)
	var err error
	if write {
		switch vxChoose(2) {
		case 0:
			err = v.SaveBinaryToFile(f)
		case 1:
			err = Value2File(vxBuild(nObj1("a", nStr("b"))), f, vxBool(), vxBool())
		}
		vxReach("refused")
		vxAssert(err != nil, "saving fails")
		vxHas(v, node, "value after the failure")
		return
	}
	switch vxChoose(5) {
	case 0:
		_, err = ReadFile(f)
	case 1:
		err = v.SetBinaryFromFile(f)
	case 2:
		_, err = NewValueFromJsonFile(f, vxBool())
	case 3:
		_, err = NewValueFromMsgPackFile(f, vxBool())
	case 4:
		_, err = NewValueFromYamlFile(f, vxBool())
	}
	vxReach("refused")
	vxAssert(err != nil, "loading fails")
	vxHas(v, node, "value after the failure")
	vxAssert(v.SaveBinaryToFile(d+"/later") == nil, "value still usable")
	got, ok := vxFileGet(d + "/later")
	vxAssert(vxAnd(ok, vxEq(string(got), s)), "saved after the failure")
}
