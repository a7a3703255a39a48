package dxsvalue

import (
	"io/ioutil"
)

// vxScratch is an existing empty directory of this run.
func vxScratch() string {
	d, err := ioutil.TempDir("", "vx")
	if err != nil {
		panic(err)
	}
	vxCur.dirs = append(vxCur.dirs, d)
	return d
}

// vxFileSet makes a file with the given content.
func vxFileSet(name string, b []byte) {
	if err := ioutil.WriteFile(name, b, 0644); err != nil {
		panic(err)
	}
}

// vxFileGet is a file's content.
func vxFileGet(name string) ([]byte, bool) {
	b, err := ioutil.ReadFile(name)
	return b, err == nil
}
