package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// A model of the file system calls: a directory of byte files with symbolic
// content and concrete names and lengths, per path. /dev/full refuses writes.

const vxScratchDir = "/vxscratch"

type vfile struct {
	dir  bool
	full bool
	data []Val
}

type vhandle struct {
	f      *vfile
	name   string
	flag   int
	pos    int
	closed bool
}

func (w *Worker) vfs() map[string]*vfile {
	if m, ok := w.side["vfs"].(map[string]*vfile); ok {
		return m
	}
	w.eng.note("stub: os files are a model (regular files, missing files and directories, /dev/full); reads and writes are whole unless refused")
	m := map[string]*vfile{"/dev/full": {full: true}, "/dev/null": {}, vxScratchDir: {dir: true}}
	w.side["vfs"] = m
	return m
}

func (w *Worker) pathArg(v Val) string {
	s, ok := w.concStr(v)
	if !ok {
		w.unsup("symbolic file name")
	}
	return s
}

// errno values of Linux
const (
	eNOENT, eBADF, eEXIST, eNOTDIR, eISDIR, eINVAL, eNOSPC = 2, 9, 17, 20, 21, 22, 28
)

func (w *Worker) pathErr(op, path string, no int) Val {
	t := w.eng.namedType("io/fs", "PathError")
	o := w.newObjT(t)
	en := w.eng.namedType("syscall", "Errno")
	w.store(o, 0, w.lay.of(t), Val{R: []Val{w.newStr(op), w.newStr(path), {R: &IfaceV{t: en, v: Val{N: uint64(no)}}}}})
	return Val{R: &IfaceV{t: types.NewPointer(t), v: Val{R: o}}}
}

func (w *Worker) openFile(name string, flag int) (*vhandle, Val) {
	fs := w.vfs()
	f := fs[name]
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if f == nil {
		i := strings.LastIndexByte(name, '/')
		d := (*vfile)(nil)
		if i > 0 {
			d = fs[name[:i]]
		}
		if d != nil && !d.dir {
			return nil, w.pathErr("open", name, eNOTDIR)
		}
		if d == nil || flag&os.O_CREATE == 0 || name[i+1:] == "" {
			return nil, w.pathErr("open", name, eNOENT)
		}
		f = &vfile{}
		fs[name] = f
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, w.pathErr("open", name, eEXIST)
	}
	if f.dir && (wr || flag&os.O_CREATE != 0) {
		return nil, w.pathErr("open", name, eISDIR)
	}
	if flag&os.O_TRUNC != 0 && !f.full {
		f.data = nil
	}
	return &vhandle{f: f, name: name, flag: flag}, Val{}
}

func (w *Worker) newHandle(h *vhandle) Val {
	p := Val{R: w.newObjT(w.eng.namedType("os", "File"))}
	w.side[fmt.Sprintf("file:%p", p.obj())] = h
	return p
}

func (h *vhandle) write(w *Worker, b []Val) (int, Val) {
	switch {
	case h.closed:
		return 0, w.mkError("write " + h.name + ": file already closed")
	case h.flag&(os.O_WRONLY|os.O_RDWR) == 0:
		return 0, w.pathErr("write", h.name, eBADF)
	case h.f.full && len(b) > 0:
		return 0, w.pathErr("write", h.name, eNOSPC)
	}
	if h.name == "/dev/null" {
		return len(b), Val{}
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = len(h.f.data)
	}
	d := append([]Val(nil), h.f.data...)
	for len(d) < h.pos+len(b) {
		d = append(d, Val{})
	}
	copy(d[h.pos:], b)
	h.f.data = d
	h.pos += len(b)
	return len(b), Val{}
}

func (w *Worker) eof() Val {
	g := w.eng.pkgs["io"].Var("EOF")
	w.ensureInit(g.Pkg)
	return w.globalObj(g).get(0)
}

func init() {
	two := func(a, b Val) Val { return Val{R: []Val{a, b}} }
	open := func(w *Worker, name string, flag int) Val {
		h, err := w.openFile(name, flag)
		if h == nil {
			return two(Val{}, err)
		}
		return two(w.newHandle(h), Val{})
	}
	intrinsics["os.Open"] = func(w *Worker, fr *Frame, a []Val) Val { return open(w, w.pathArg(a[0]), os.O_RDONLY) }
	intrinsics["os.Create"] = func(w *Worker, fr *Frame, a []Val) Val {
		return open(w, w.pathArg(a[0]), os.O_RDWR|os.O_CREATE|os.O_TRUNC)
	}
	intrinsics["os.OpenFile"] = func(w *Worker, fr *Frame, a []Val) Val {
		return open(w, w.pathArg(a[0]), w.cint(a[1]))
	}
	intrinsics["os.ReadFile"] = func(w *Worker, fr *Frame, a []Val) Val {
		name := w.pathArg(a[0])
		h, err := w.openFile(name, os.O_RDONLY)
		if h == nil {
			return two(Val{}, err)
		}
		if h.f.dir {
			return two(Val{}, w.pathErr("read", name, eISDIR))
		}
		n := len(h.f.data)
		return two(mkSlice(w.mkBytes(h.f.data), 0, n, n), Val{})
	}
	intrinsics["os.WriteFile"] = func(w *Worker, fr *Frame, a []Val) Val {
		h, err := w.openFile(w.pathArg(a[0]), os.O_WRONLY|os.O_CREATE|os.O_TRUNC)
		if h == nil {
			return err
		}
		_, err = h.write(w, w.bytesVals(a[1]))
		return err
	}
	intrinsics["os.Remove"] = func(w *Worker, fr *Frame, a []Val) Val {
		name := w.pathArg(a[0])
		if w.vfs()[name] == nil {
			return w.pathErr("remove", name, eNOENT)
		}
		delete(w.vfs(), name)
		return Val{}
	}
	intrinsics["os.Rename"] = func(w *Worker, fr *Frame, a []Val) Val {
		x, y := w.pathArg(a[0]), w.pathArg(a[1])
		f := w.vfs()[x]
		if f == nil {
			return w.pathErr("rename", x, eNOENT)
		}
		if i := strings.LastIndexByte(y, '/'); i <= 0 || w.vfs()[y[:i]] == nil {
			return w.pathErr("rename", y, eNOENT)
		}
		delete(w.vfs(), x)
		w.vfs()[y] = f
		return Val{}
	}
	info := func(w *Worker, f *vfile, name string) Val {
		t := w.eng.namedType("os", "fileStat")
		p := Val{R: w.newObjT(t)}
		w.side[fmt.Sprintf("stat:%p", p.obj())] = &vhandle{f: &vfile{dir: f.dir, data: f.data}, name: name}
		return Val{R: &IfaceV{t: types.NewPointer(t), v: p}}
	}
	for _, n := range []string{"Stat", "Lstat"} {
		intrinsics["os."+n] = func(w *Worker, fr *Frame, a []Val) Val {
			name := w.pathArg(a[0])
			f := w.vfs()[name]
			if f == nil {
				return two(Val{}, w.pathErr("stat", name, eNOENT))
			}
			return two(info(w, f, name), Val{})
		}
	}
	st := func(name string, f func(w *Worker, h *vhandle) Val) {
		opaqueMethods["*os.fileStat."+name] = func(w *Worker, fr *Frame, a []Val) Val {
			return f(w, w.side[fmt.Sprintf("stat:%p", a[0].obj())].(*vhandle))
		}
	}
	st("Size", func(w *Worker, h *vhandle) Val {
		if h.f.dir {
			return Val{N: 4096}
		}
		return Val{N: uint64(len(h.f.data))}
	})
	st("IsDir", func(w *Worker, h *vhandle) Val {
		if h.f.dir {
			return Val{N: 1}
		}
		return Val{}
	})
	st("Name", func(w *Worker, h *vhandle) Val { return w.newStr(h.name[strings.LastIndexByte(h.name, '/')+1:]) })
	st("Mode", func(w *Worker, h *vhandle) Val {
		if h.f.dir {
			return Val{N: uint64(os.ModeDir | 0755)}
		}
		return Val{N: 0644}
	})
	fm := func(name string, f func(w *Worker, fr *Frame, h *vhandle, a []Val) Val) {
		intrinsics["(*os.File)."+name] = func(w *Worker, fr *Frame, a []Val) Val {
			if a[0].R == nil {
				w.unsup("method %s on a nil *os.File", name)
			}
			h, ok := w.side[fmt.Sprintf("file:%p", a[0].obj())].(*vhandle)
			if !ok {
				w.unsup("file that was not opened")
			}
			return f(w, fr, h, a[1:])
		}
	}
	wr := func(w *Worker, fr *Frame, h *vhandle, a []Val) Val {
		n, err := h.write(w, w.bytesVals(asStr(a[0])))
		return two(Val{N: uint64(n)}, err)
	}
	fm("Write", wr)
	fm("WriteString", wr)
	fm("Read", func(w *Worker, fr *Frame, h *vhandle, a []Val) Val {
		switch {
		case h.closed:
			return two(Val{}, w.mkError("read "+h.name+": file already closed"))
		case h.f.dir:
			return two(Val{}, w.pathErr("read", h.name, eISDIR))
		case h.flag&os.O_WRONLY != 0:
			return two(Val{}, w.pathErr("read", h.name, eBADF))
		}
		n := slen(a[0])
		if n == 0 {
			return two(Val{}, Val{})
		}
		if h.f.full {
			for i := 0; i < n; i++ {
				w.set(a[0].obj(), int(a[0].N)+i, Val{})
			}
			return two(Val{N: uint64(n)}, Val{})
		}
		if h.pos >= len(h.f.data) {
			return two(Val{}, w.eof())
		}
		if n > len(h.f.data)-h.pos {
			n = len(h.f.data) - h.pos
		}
		for i := 0; i < n; i++ {
			w.set(a[0].obj(), int(a[0].N)+i, h.f.data[h.pos+i])
		}
		h.pos += n
		return two(Val{N: uint64(n)}, Val{})
	})
	fm("Close", func(w *Worker, fr *Frame, h *vhandle, a []Val) Val {
		if h.closed {
			return w.mkError("close " + h.name + ": file already closed")
		}
		h.closed = true
		return Val{}
	})
	fm("Sync", func(w *Worker, fr *Frame, h *vhandle, a []Val) Val { return Val{} })
	fm("Name", func(w *Worker, fr *Frame, h *vhandle, a []Val) Val { return w.newStr(h.name) })
	fm("Stat", func(w *Worker, fr *Frame, h *vhandle, a []Val) Val { return two(info(w, h.f, h.name), Val{}) })
	fm("Truncate", func(w *Worker, fr *Frame, h *vhandle, a []Val) Val {
		if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
			return w.pathErr("truncate", h.name, eINVAL)
		}
		n := w.cint(a[0])
		d := append([]Val(nil), h.f.data...)
		for len(d) < n {
			d = append(d, Val{})
		}
		h.f.data = d[:n]
		return Val{}
	})
	fm("Seek", func(w *Worker, fr *Frame, h *vhandle, a []Val) Val {
		o := w.cint(a[0])
		switch w.cint(a[1]) {
		case 1:
			o += h.pos
		case 2:
			o += len(h.f.data)
		}
		if o < 0 {
			return two(Val{}, w.pathErr("seek", h.name, eINVAL))
		}
		h.pos = o
		return two(Val{N: uint64(o)}, Val{})
	})
	harnessFns["vxScratch"] = func(w *Worker, fr *Frame, a []Val) Val { w.vfs(); return w.newStr(vxScratchDir) }
	harnessFns["vxFileSet"] = func(w *Worker, fr *Frame, a []Val) Val {
		w.vfs()[w.pathArg(a[0])] = &vfile{data: w.bytesVals(a[1])}
		return Val{}
	}
	harnessFns["vxFileGet"] = func(w *Worker, fr *Frame, a []Val) Val {
		f := w.vfs()[w.pathArg(a[0])]
		if f == nil || f.dir {
			return two(Val{}, Val{})
		}
		n := len(f.data)
		return two(mkSlice(w.mkBytes(f.data), 0, n, n), Val{N: 1})
	}
}
