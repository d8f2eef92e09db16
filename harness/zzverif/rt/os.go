package rt

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// A file system in memory: directories, files and links to /dev/full, on which
// every write fails. Names are relative to the working directory.

type fnode struct {
	dir    bool
	full   bool
	target string // what a link says
	data   string
	mode   os.FileMode
}

type fhandle struct {
	n      *fnode
	name   string
	off    int
	rd, wr bool
	app    bool
	closed bool
}

var (
	nodes   map[string]*fnode
	handles map[*os.File]*fhandle
	tmpSeq  int
)

var faultMkdir, faultCreate, faultClose bool

//gosym:replace github.com/kwilteam/kuneiform/zzverif/nd.Faults
func ndFaults(mkdir, create, closing bool) {
	faultMkdir, faultCreate, faultClose, shortWrites = mkdir, create, closing, false
}

var shortWrites bool

//gosym:replace github.com/kwilteam/kuneiform/zzverif/nd.ShortWrites
func ndShortWrites(on bool) { shortWrites = on }

func files() map[string]*fnode {
	if nodes == nil {
		nodes = map[string]*fnode{".": {dir: true, mode: 0o755}, "..": {dir: true, mode: 0o755}, "/": {dir: true, mode: 0o755}, "/tmp": {dir: true, mode: 0o777}, "/dev": {dir: true, mode: 0o755}, "/dev/full": {full: true}}
		handles = map[*os.File]*fhandle{}
	}
	return nodes
}

func perr(op, name string, e error) error { return &fs.PathError{Op: op, Path: name, Err: e} }

//gosym:replace (syscall.Errno).Error
func errnoText(e syscall.Errno) string {
	switch e {
	case syscall.ENOENT:
		return "no such file or directory"
	case syscall.EEXIST:
		return "file exists"
	case syscall.ENOTDIR:
		return "not a directory"
	case syscall.EISDIR:
		return "is a directory"
	case syscall.ENOSPC:
		return "no space left on device"
	case syscall.EACCES:
		return "permission denied"
	case syscall.EIO:
		return "input/output error"
	case syscall.EBADF:
		return "bad file descriptor"
	case syscall.EFBIG:
		return "file too large"
	case syscall.EINVAL:
		return "invalid argument"
	case syscall.ENOTEMPTY:
		return "directory not empty"
	}
	return "errno " + strconv.Itoa(int(e))
}

func parentOf(p string) error {
	d := filepath.Dir(p)
	n := files()[d]
	if n == nil {
		if d != "." && d != "/" {
			if err := parentOf(d); err == syscall.ENOTDIR {
				return err
			}
		}
		return syscall.ENOENT
	}
	if !n.dir {
		return syscall.ENOTDIR
	}
	return nil
}

func find(name string) (*fnode, string, error) {
	if name == "" {
		return nil, "", syscall.ENOENT
	}
	p := filepath.Clean(name)
	n := files()[p]
	if n == nil {
		if err := parentOf(p); err != nil {
			return nil, p, err
		}
		return nil, p, syscall.ENOENT
	}
	if strings.HasSuffix(name, "/") && !n.dir {
		return nil, p, syscall.ENOTDIR
	}
	return n, p, nil
}

//gosym:replace os.OpenFile
func openFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if faultCreate && flag&os.O_CREATE != 0 {
		return nil, perr("open", name, syscall.EACCES)
	}
	n, p, err := find(name)
	if n == nil {
		if err != syscall.ENOENT || name == "" || flag&os.O_CREATE == 0 {
			return nil, perr("open", name, err)
		}
		if e := parentOf(p); e != nil {
			return nil, perr("open", name, e)
		}
		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		n = &fnode{mode: perm}
		nodes[p] = n
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 {
			n.data = ""
		}
	}
	f := new(os.File)
	handles[f] = &fhandle{n: n, name: name, rd: flag&os.O_WRONLY == 0, wr: flag&(os.O_WRONLY|os.O_RDWR) != 0, app: flag&os.O_APPEND != 0}
	return f, nil
}

//gosym:replace os.Open
func osOpen(name string) (*os.File, error) { return openFile(name, os.O_RDONLY, 0) }

//gosym:replace os.Create
func osCreate(name string) (*os.File, error) {
	return openFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

//gosym:replace os.CreateTemp
func createTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpSeq++
	seq := "000" + strconv.Itoa(tmpSeq)
	name := pattern + seq
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		name = pattern[:i] + seq + pattern[i+1:]
	}
	return openFile(dir+"/"+name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

//gosym:replace os.MkdirTemp
func mkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpSeq++
	name := dir + "/" + strings.ReplaceAll(pattern, "*", "") + "000" + strconv.Itoa(tmpSeq)
	return name, osMkdir(name, 0o700)
}

func handle(f *os.File) (*fhandle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil || h.closed {
		return nil, os.ErrClosed
	}
	return h, nil
}

//gosym:replace (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	switch {
	case f == nil:
		return 0, os.ErrInvalid
	case f == os.Stdout:
		write("stdout", string(b))
		return len(b), nil
	case f == os.Stderr:
		write("stderr", string(b))
		return len(b), nil
	}
	h, err := handle(f)
	if err != nil {
		return 0, perr("write", f.Name(), err)
	}
	if !h.wr {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if h.n.full {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, perr("write", h.name, syscall.ENOSPC)
	}
	s := string(b)
	if h.app {
		h.off = len(h.n.data)
	}
	var short error
	if shortWrites && h.off+len(s) > 5 {
		short = perr("write", h.name, syscall.EFBIG)
		n := 5 - h.off
		if n <= 0 {
			return 0, short
		}
		s = s[:n]
	}
	old := h.n.data
	for len(old) < h.off {
		old += "\x00"
	}
	end := h.off + len(s)
	if end >= len(old) {
		h.n.data = old[:h.off] + s
	} else {
		h.n.data = old[:h.off] + s + old[end:]
	}
	h.off = end
	return len(s), short
}

//gosym:replace (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//gosym:replace (*os.File).ReadFrom
func fileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := fileWrite(f, b)
	return int64(n), err
}

//gosym:replace (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	h, err := handle(f)
	if err != nil {
		return 0, err
	}
	if h.n.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if !h.rd {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.off:])
	h.off += n
	return n, nil
}

//gosym:replace (*os.File).Close
func fileClose(f *os.File) error {
	h, err := handle(f)
	if err != nil {
		return err
	}
	h.closed = true
	if faultClose {
		return perr("close", h.name, syscall.EIO)
	}
	return nil
}

//gosym:replace (*os.File).Sync
func fileSync(f *os.File) error {
	h, err := handle(f)
	if err != nil {
		return err
	}
	if h.n.full {
		return perr("sync", h.name, syscall.EINVAL)
	}
	return nil
}

//gosym:replace (*os.File).Chmod
func fileChmod(f *os.File, m os.FileMode) error { return nil }

//gosym:replace (*os.File).Name
func fileName(f *os.File) string {
	if h := handles[f]; h != nil {
		return h.name
	}
	return "std"
}

//gosym:replace (*os.File).Truncate
func fileTruncate(f *os.File, size int64) error {
	h, err := handle(f)
	if err != nil {
		return err
	}
	if !h.wr || h.n.full {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	for len(h.n.data) < int(size) {
		h.n.data += "\x00"
	}
	h.n.data = h.n.data[:int(size)]
	return nil
}

//gosym:replace (*os.File).Seek
func fileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := handle(f)
	if err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		h.off = int(off)
	case 1:
		h.off += int(off)
	case 2:
		h.off = len(h.n.data) + int(off)
	}
	return int64(h.off), nil
}

//gosym:replace os.ReadFile
func readFile(name string) ([]byte, error) {
	n, _, err := find(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	if n.full {
		unsupported("reading an endless file")
	}
	return []byte(n.data), nil
}

//gosym:replace os.WriteFile
func writeFile(name string, data []byte, perm os.FileMode) error {
	f, err := openFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fileWrite(f, data)
	if e := fileClose(f); err == nil {
		err = e
	}
	return err
}

//gosym:replace os.Mkdir
func osMkdir(name string, perm os.FileMode) error {
	if faultMkdir {
		return perr("mkdir", name, syscall.EACCES)
	}
	n, p, err := find(name)
	if n != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if err != syscall.ENOENT || name == "" {
		return perr("mkdir", name, err)
	}
	if e := parentOf(p); e != nil {
		return perr("mkdir", name, e)
	}
	nodes[p] = &fnode{dir: true, mode: perm}
	return nil
}

//gosym:replace os.MkdirAll
func mkdirAll(name string, perm os.FileMode) error {
	if name == "" {
		return osMkdir(name, perm)
	}
	n, _, err := find(name)
	if n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	i := len(name)
	for i > 0 && name[i-1] == '/' {
		i--
	}
	for i > 0 && name[i-1] != '/' {
		i--
	}
	if i > 1 {
		if err := mkdirAll(name[:i-1], perm); err != nil {
			return err
		}
	}
	err = osMkdir(name, perm)
	if err != nil {
		if n, _, _ := find(name); n != nil && n.dir {
			return nil
		}
	}
	return err
}

//gosym:replace github.com/spf13/cobra.tmpl
func cobraTmpl(w io.Writer, text string, data interface{}) error {
	_, err := io.WriteString(w, "usage\n")
	return err
}

//gosym:replace os.Remove
func osRemove(name string) error {
	n, p, err := find(name)
	if n == nil {
		return perr("remove", name, err)
	}
	if n.dir {
		for k := range nodes {
			if k != p && strings.HasPrefix(k, p+"/") {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	delete(nodes, p)
	return nil
}

//gosym:replace os.RemoveAll
func osRemoveAll(name string) error {
	p := filepath.Clean(name)
	var gone []string
	for k := range files() {
		if k == p || strings.HasPrefix(k, p+"/") {
			gone = append(gone, k)
		}
	}
	for _, k := range gone {
		delete(nodes, k)
	}
	return nil
}

//gosym:replace os.Rename
func osRename(from, to string) error {
	n, p, err := find(from)
	if n == nil {
		return perr("rename", from, err)
	}
	t, q, err := find(to)
	if t == nil && err != syscall.ENOENT {
		return perr("rename", to, err)
	}
	if t == nil {
		if e := parentOf(q); e != nil {
			return perr("rename", to, e)
		}
	}
	if n.dir {
		unsupported("renaming a directory")
	}
	if t != nil && t.dir {
		return perr("rename", to, syscall.EEXIST)
	}
	delete(nodes, p)
	nodes[q] = n
	return nil
}

//gosym:replace os.Symlink
func osSymlink(old, name string) error {
	n, p, _ := find(name)
	if n != nil {
		return perr("symlink", name, syscall.EEXIST)
	}
	if e := parentOf(p); e != nil {
		return perr("symlink", name, e)
	}
	if old != "/dev/full" {
		unsupported("a link to something else")
	}
	nodes[p] = &fnode{full: true, target: old}
	return nil
}

//gosym:replace os.Chmod
func osChmod(name string, m os.FileMode) error {
	n, _, err := find(name)
	if n == nil {
		return perr("chmod", name, err)
	}
	return nil
}

type finfo struct {
	name string
	n    *fnode
}

func (i *finfo) Name() string { return i.name }
func (i *finfo) Size() int64  { return int64(len(i.n.data)) }
func (i *finfo) Mode() fs.FileMode {
	if i.n.dir {
		return i.n.mode | fs.ModeDir
	}
	if i.n.full {
		return i.n.mode | fs.ModeDevice | fs.ModeCharDevice
	}
	return i.n.mode
}
func (i *finfo) ModTime() time.Time { return time.Time{} }
func (i *finfo) IsDir() bool        { return i.n.dir }
func (i *finfo) Sys() any           { return nil }

//gosym:replace os.Stat os.Lstat
func osStat(name string) (os.FileInfo, error) {
	n, p, err := find(name)
	if n == nil {
		return nil, perr("stat", name, err)
	}
	return &finfo{filepath.Base(p), n}, nil
}

//gosym:replace (*os.File).Stat
func fileStat(f *os.File) (os.FileInfo, error) {
	h, err := handle(f)
	if err != nil {
		return nil, err
	}
	return &finfo{filepath.Base(h.name), h.n}, nil
}

//gosym:replace os.ReadDir
func osReadDir(name string) ([]os.DirEntry, error) {
	n, p, err := find(name)
	if n == nil {
		return nil, perr("open", name, err)
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var names []string
	for k := range nodes {
		if k != p && k != ".." && filepath.Dir(k) == p {
			names = append(names, filepath.Base(k))
		}
	}
	sort.Strings(names)
	var out []os.DirEntry
	for _, k := range names {
		out = append(out, fs.FileInfoToDirEntry(&finfo{k, nodes[filepath.Join(p, k)]}))
	}
	return out, nil
}

func underlying(err error) error {
	switch e := err.(type) { // not through wrapped errors
	case *fs.PathError:
		return e.Err
	case *os.LinkError:
		return e.Err
	case *os.SyscallError:
		return e.Err
	}
	return err
}

//gosym:replace (syscall.Errno).Is
func errnoIs(e syscall.Errno, target error) bool {
	switch target {
	case nil:
		return false
	case fs.ErrPermission:
		return e == syscall.EACCES || e == syscall.EPERM
	case fs.ErrExist:
		return e == syscall.EEXIST || e == syscall.ENOTEMPTY
	case fs.ErrNotExist:
		return e == syscall.ENOENT
	}
	return false
}

//gosym:replace os.IsPermission
func isPermission(err error) bool {
	e := underlying(err)
	return e == syscall.EACCES || e == syscall.EPERM || e == fs.ErrPermission
}

//gosym:replace os.IsNotExist
func isNotExist(err error) bool {
	e := underlying(err)
	return e == syscall.ENOENT || e == fs.ErrNotExist
}

//gosym:replace os.IsExist
func isExist(err error) bool {
	e := underlying(err)
	return e == syscall.EEXIST || e == syscall.ENOTEMPTY || e == fs.ErrExist
}

//gosym:replace os.Getwd
func getwd() (string, error) { return "/work", nil }

//gosym:replace os.Getenv
func getenv(k string) string { return "" }

//gosym:replace os.LookupEnv
func lookupEnv(k string) (string, bool) { return "", false }
