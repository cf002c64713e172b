package k

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the simulated disk: what processes see now (the page cache), what is
// durable, and the metadata operations in between.
type FS struct {
	nodes   map[int]*Inode
	root    int
	next    int
	journal []metaOp               // not yet durable, in order
	dur     map[int]map[string]int // durable directory entries by inode
	clock   func() time.Time
}

type Inode struct {
	ID    int
	Mode  os.FileMode // type bits and permissions
	Data  []byte      // never modified in place
	Ents  map[string]int
	Link  string
	Mtime time.Time
	// durable content; nil with durSet false: never reached the disk
	dur    []byte
	durSet bool
}

type metaOp struct {
	dir   int
	name  string
	ino   int // 0: remove
	dir2  int // rename: target
	name2 string
	ren   bool
}

func (n *Inode) IsDir() bool { return n.Mode&os.ModeDir != 0 }

func NewFS() *FS {
	f := &FS{nodes: map[int]*Inode{}, next: 2, root: 1, dur: map[int]map[string]int{}}
	f.nodes[1] = &Inode{ID: 1, Mode: os.ModeDir | 0755, Ents: map[string]int{}}
	f.dur[1] = map[string]int{}
	return f
}

// Clone returns an independent copy.
func (f *FS) Clone() *FS {
	g := &FS{nodes: make(map[int]*Inode, len(f.nodes)), root: f.root, next: f.next, clock: f.clock, dur: make(map[int]map[string]int, len(f.dur))}
	for id, n := range f.nodes {
		m := *n
		if n.Ents != nil {
			m.Ents = make(map[string]int, len(n.Ents))
			for k, v := range n.Ents {
				m.Ents[k] = v
			}
		}
		g.nodes[id] = &m
	}
	for id, e := range f.dur {
		c := make(map[string]int, len(e))
		for k, v := range e {
			c[k] = v
		}
		g.dur[id] = c
	}
	g.journal = append([]metaOp(nil), f.journal...)
	return g
}

func (f *FS) now() time.Time {
	if f.clock != nil {
		return f.clock()
	}
	return time.Unix(1600000000, 0)
}

func (f *FS) alloc(mode os.FileMode) *Inode {
	n := &Inode{ID: f.next, Mode: mode, Mtime: f.now()}
	f.next++
	if n.IsDir() {
		n.Ents = map[string]int{}
	}
	f.nodes[n.ID] = n
	return n
}

// walk resolves p (absolute, slash separated). With follow, a final symlink is
// followed. It returns the parent directory, the last name and the node (nil
// if only the last component is missing).
func (f *FS) walk(p string, follow bool) (dir *Inode, name string, n *Inode, err error) {
	return f.walkN(p, follow, 0)
}

func (f *FS) walkN(p string, follow bool, depth int) (*Inode, string, *Inode, error) {
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	if len(p) > 4095 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	trail := len(p) > 1 && strings.HasSuffix(p, "/")
	cur := f.nodes[f.root]
	parts := strings.Split(strings.Trim(p, "/"), "/")
	stack := []*Inode{cur}
	names := []string{""}
	for i, c := range parts {
		if c == "" || c == "." {
			continue
		}
		last := i == len(parts)-1
		if !cur.IsDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			cur = stack[len(stack)-1]
			continue
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		id, ok := cur.Ents[c]
		if !ok {
			if last {
				return cur, c, nil, nil
			}
			return nil, "", nil, syscall.ENOENT
		}
		n := f.nodes[id]
		if n.Mode&os.ModeSymlink != 0 && (!last || follow || trail) {
			base := strings.Join(names[1:], "/")
			t := n.Link
			if !strings.HasPrefix(t, "/") {
				t = "/" + base + "/" + t
			}
			rest := strings.Join(parts[i+1:], "/")
			if rest != "" {
				t = t + "/" + rest
			}
			if trail && !strings.HasSuffix(t, "/") {
				t += "/"
			}
			return f.walkN(t, follow, depth+1)
		}
		if last {
			if trail && !n.IsDir() {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, c, n, nil
		}
		cur = n
		stack = append(stack, n)
		names = append(names, c)
	}
	// path was "/" or ended in "." or ".."
	return nil, "", cur, nil
}

func (f *FS) stat(p string, follow bool) (*Inode, error) {
	_, _, n, err := f.walk(p, follow)
	if err != nil {
		return nil, err
	}
	if n == nil {
		return nil, syscall.ENOENT
	}
	return n, nil
}

func (f *FS) link(dir *Inode, name string, n *Inode) {
	dir.Ents[name] = n.ID
	dir.Mtime = f.now()
	f.journal = append(f.journal, metaOp{dir: dir.ID, name: name, ino: n.ID})
}

func (f *FS) unlink(dir *Inode, name string) {
	delete(dir.Ents, name)
	dir.Mtime = f.now()
	f.journal = append(f.journal, metaOp{dir: dir.ID, name: name})
}

func (f *FS) mkdir(p string, mode os.FileMode) error {
	dir, name, n, err := f.walk(p, false)
	if err != nil {
		return err
	}
	if n != nil || dir == nil {
		return syscall.EEXIST
	}
	f.link(dir, name, f.alloc(os.ModeDir|mode&0777&^022))
	return nil
}

func (f *FS) open(p string, flag int, mode os.FileMode) (*Inode, bool, error) {
	follow := !(flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0)
	dir, name, n, err := f.walk(p, follow)
	if err != nil {
		return nil, false, err
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n == nil {
		if flag&os.O_CREATE == 0 || dir == nil {
			return nil, false, syscall.ENOENT
		}
		n = f.alloc(mode & 0777 &^ 022)
		f.link(dir, name, n)
		return n, true, nil
	}
	if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, false, syscall.EEXIST
	}
	if n.IsDir() && acc != os.O_RDONLY {
		return nil, false, syscall.EISDIR
	}
	if flag&os.O_TRUNC != 0 && !n.IsDir() {
		n.Data = nil
		n.Mtime = f.now()
	}
	return n, false, nil
}

func (f *FS) rmfile(p string) error {
	dir, name, n, err := f.walk(p, false)
	if err != nil {
		return err
	}
	if n == nil {
		return syscall.ENOENT
	}
	if n.IsDir() {
		return syscall.EISDIR
	}
	f.unlink(dir, name)
	return nil
}

func (f *FS) rmdir(p string) error {
	dir, name, n, err := f.walk(p, false)
	if err != nil {
		return err
	}
	if n == nil {
		return syscall.ENOENT
	}
	if !n.IsDir() {
		return syscall.ENOTDIR
	}
	if len(n.Ents) > 0 {
		return syscall.ENOTEMPTY
	}
	if dir == nil {
		return syscall.EBUSY
	}
	f.unlink(dir, name)
	return nil
}

func (f *FS) rename(a, b string) error {
	d1, n1, x, err := f.walk(a, false)
	if err != nil {
		return err
	}
	if x == nil {
		return syscall.ENOENT
	}
	if d1 == nil {
		return syscall.EBUSY
	}
	d2, n2, y, err := f.walk(b, false)
	if err != nil {
		return err
	}
	if d2 == nil {
		return syscall.EEXIST
	}
	if y != nil {
		if y.ID == x.ID {
			return nil
		}
		if y.IsDir() {
			if !x.IsDir() {
				return syscall.EISDIR
			}
			if len(y.Ents) > 0 {
				return syscall.ENOTEMPTY
			}
		} else if x.IsDir() {
			return syscall.ENOTDIR
		}
	}
	delete(d1.Ents, n1)
	d2.Ents[n2] = x.ID
	d1.Mtime, d2.Mtime = f.now(), f.now()
	f.journal = append(f.journal, metaOp{ren: true, dir: d1.ID, name: n1, ino: x.ID, dir2: d2.ID, name2: n2})
	return nil
}

func (n *Inode) writeAt(b []byte, off int64) {
	end := off + int64(len(b))
	size := int64(len(n.Data))
	if end > size {
		size = end
	}
	d := make([]byte, size)
	copy(d, n.Data)
	copy(d[off:], b)
	n.Data = d
}

// fsync makes a file's content and all earlier metadata operations durable.
func (f *FS) fsync(n *Inode) {
	if !n.IsDir() {
		n.dur, n.durSet = n.Data, true
	}
	f.commit(len(f.journal))
}

func (f *FS) commit(k int) {
	ents := func(id int) map[string]int {
		e := f.dur[id]
		if e == nil {
			e = map[string]int{}
			f.dur[id] = e
		}
		return e
	}
	for _, op := range f.journal[:k] {
		switch {
		case op.ren:
			delete(ents(op.dir), op.name)
			ents(op.dir2)[op.name2] = op.ino
		case op.ino == 0:
			delete(ents(op.dir), op.name)
		default:
			ents(op.dir)[op.name] = op.ino
		}
	}
	f.journal = append([]metaOp(nil), f.journal[k:]...)
}

// SyncAll makes everything durable (the state at the start of a scenario).
func (f *FS) SyncAll() {
	f.commit(len(f.journal))
	for _, n := range f.nodes {
		if !n.IsDir() {
			n.dur, n.durSet = n.Data, true
		}
	}
}

// PowerLoss returns a disk that may be found after losing power now: some
// prefix of the pending metadata operations happened, and the content of each
// file that was not synced since its last change is its last synced content,
// its new content, or a torn mixture.
func (f *FS) PowerLoss(r *Rand) *FS {
	g := f.Clone()
	g.commit(r.Intn(len(g.journal) + 1))
	g.journal = nil
	ids := make([]int, 0, len(g.nodes))
	for id := range g.nodes {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		n := g.nodes[id]
		if n.IsDir() {
			n.Ents = map[string]int{}
			for k, v := range g.dur[id] {
				n.Ents[k] = v
			}
			continue
		}
		if n.durSet && string(n.dur) == string(n.Data) {
			continue
		}
		switch r.Intn(4) {
		case 0: // nothing of the new content
			n.Data = n.dur
		case 1: // all of it
		case 2: // a prefix
			n.Data = n.Data[:r.Intn(len(n.Data)+1)]
		case 3: // right length, tail not written
			d := append([]byte(nil), n.Data...)
			for i := r.Intn(len(d) + 1); i < len(d); i++ {
				d[i] = 0
			}
			n.Data = d
		}
		n.dur, n.durSet = n.Data, true
	}
	g.gc()
	return g
}

func (f *FS) gc() {
	live := map[int]bool{}
	var mark func(id int)
	mark = func(id int) {
		if live[id] {
			return
		}
		live[id] = true
		for _, c := range f.nodes[id].Ents {
			mark(c)
		}
	}
	mark(f.root)
	for id := range f.nodes {
		if !live[id] {
			delete(f.nodes, id)
			delete(f.dur, id)
		}
	}
}

// ---- direct access for harnesses (no operations are counted) ----

// Put writes a file, creating directories, and makes it durable.
func (f *FS) Put(p string, data string) {
	f.MkdirAllRaw(path.Dir(p))
	n, _, err := f.open(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		panic(fmt.Sprintf("Put %s: %v", p, err))
	}
	n.Data = []byte(data)
	f.fsync(n)
}

func (f *FS) MkdirAllRaw(p string) {
	cur := ""
	for _, c := range strings.Split(strings.Trim(p, "/"), "/") {
		if c == "" {
			continue
		}
		cur += "/" + c
		if n, err := f.stat(cur, true); err == nil && n.IsDir() {
			continue
		}
		if err := f.mkdir(cur, 0755); err != nil {
			panic(fmt.Sprintf("MkdirAllRaw %s: %v", cur, err))
		}
	}
	f.commit(len(f.journal))
}

// Get returns a file's content.
func (f *FS) Get(p string) (string, bool) {
	n, err := f.stat(p, true)
	if err != nil || n.IsDir() {
		return "", false
	}
	return string(n.Data), true
}

// Exists reports whether anything has this name.
func (f *FS) Exists(p string) bool {
	_, err := f.stat(p, false)
	return err == nil
}

// Delete removes a file or tree.
func (f *FS) Delete(p string) {
	dir, name, n, err := f.walk(p, false)
	if err != nil || n == nil || dir == nil {
		return
	}
	f.unlink(dir, name)
	f.commit(len(f.journal))
}

// Symlink creates a symbolic link.
func (f *FS) Symlink(target, p string) {
	f.MkdirAllRaw(path.Dir(p))
	dir, name, n, err := f.walk(p, false)
	if err != nil || n != nil {
		panic("Symlink " + p)
	}
	l := f.alloc(os.ModeSymlink | 0777)
	l.Link = target
	f.link(dir, name, l)
	f.commit(len(f.journal))
}

// Chmod sets permission bits.
func (f *FS) Chmod(p string, m os.FileMode) {
	if n, err := f.stat(p, true); err == nil {
		n.Mode = n.Mode&^0777 | m&0777
	}
}

// Mode returns the permission bits of a file.
func (f *FS) ModeOf(p string) os.FileMode {
	if n, err := f.stat(p, true); err == nil {
		return n.Mode
	}
	return 0
}

// Files lists all files below root with their content ("<dir>" for
// directories, "-> target" for symbolic links to nothing or to a directory
// above). Other symbolic links are followed: a name is what a program sees.
func (f *FS) Files(root string) map[string]string {
	rv := map[string]string{}
	n, err := f.stat(root, true)
	if err != nil {
		return rv
	}
	active := map[int]bool{}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		if n.Mode&os.ModeSymlink != 0 {
			t, err := f.stat(p, true)
			if err != nil || active[t.ID] {
				rv[p] = "-> " + n.Link
				return
			}
			n = t
		}
		if !n.IsDir() {
			rv[p] = string(n.Data)
			return
		}
		if p != root {
			rv[p] = "<dir>"
		}
		active[n.ID] = true
		for name, id := range n.Ents {
			rec(path.Join(p, name), f.nodes[id])
		}
		delete(active, n.ID)
	}
	rec(root, n)
	return rv
}

// Links lists the symbolic links below root (by their own place) with their
// targets.
func (f *FS) Links(root string) map[string]string {
	rv := map[string]string{}
	n, err := f.stat(root, true)
	if err != nil {
		return rv
	}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		if n.Mode&os.ModeSymlink != 0 {
			rv[p] = n.Link
		}
		for name, id := range n.Ents {
			rec(path.Join(p, name), f.nodes[id])
		}
	}
	rec(root, n)
	return rv
}

// Real is the place behind a name: symbolic links are resolved as far as
// there is something.
func (f *FS) Real(p string) string {
	rest := ""
	for i := 0; i < 200; i++ {
		p = path.Clean(p)
		if p == "/" {
			break
		}
		dir, name := path.Dir(p), path.Base(p)
		n, err := f.stat(p, false)
		if err == nil && n.Mode&os.ModeSymlink != 0 {
			if strings.HasPrefix(n.Link, "/") {
				p = n.Link
			} else {
				p = dir + "/" + n.Link
			}
			continue
		}
		rest = path.Join(name, rest)
		p = dir
	}
	return path.Join("/", rest)
}

// Move renames a file or tree.
func (f *FS) Move(a, b string) {
	f.MkdirAllRaw(path.Dir(b))
	if err := f.rename(a, b); err != nil {
		panic(fmt.Sprintf("Move %s %s: %v", a, b, err))
	}
	f.commit(len(f.journal))
}

// Touch gives everything a new time stamp.
func (f *FS) Touch(r *Rand) {
	ids := make([]int, 0, len(f.nodes))
	for id := range f.nodes {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		f.nodes[id].Mtime = time.Unix(900000000+int64(r.Intn(1000000000)), int64(r.Intn(1000000000)))
	}
}

// HashTree is a short fingerprint of everything below root.
func (f *FS) HashTree(root string, skip func(string) bool) uint64 {
	m := f.Files(root)
	keys := make([]string, 0, len(m))
	for p := range m {
		if skip == nil || !skip(p) {
			keys = append(keys, p)
		}
	}
	sort.Strings(keys)
	h := uint64(14695981039346656037)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	for _, p := range keys {
		add(p)
		add(m[p])
	}
	return h
}

// IDOf is the identity of the file under a name (0: there is none).
func (f *FS) IDOf(p string) int {
	n, err := f.stat(p, false)
	if err != nil {
		return 0
	}
	return n.ID
}

// ByID is the content of a file by its identity.
func (f *FS) ByID(id int) (string, bool) {
	n := f.nodes[id]
	if n == nil {
		return "", false
	}
	return string(n.Data), true
}
