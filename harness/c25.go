package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Check{ID: "C25", Level: "exploration",
		Rule: "The same bytes (valid, shipped, damaged, hostile, empty and large manifests) are read by ReadFromString, MPDFromBytes and ReadFromFile, the latter also through links, odd paths, FIFOs fed in pieces and files that are changed afterwards; results, links, memory shared between results, the buffer, the file and open descriptors are compared, one after another and at the same time. Files that cannot be read must give an error and no MPD. Non-trivial: distinct input bytes.",
		Run:  runC25})
}

// openIn lists the descriptors of this process that are open on something below dir.
func openIn(dir string) []string {
	var out []string
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, fd := range fds {
		l, err := os.Readlink("/proc/self/fd/" + fd.Name())
		if err == nil && strings.HasPrefix(l, dir) {
			out = append(out, l)
		}
	}
	return out
}

// agree reads data in all ways and compares; path is a file with that content.
func agree(t *T, data []byte, path string) bool {
	buf := append([]byte(nil), data...)
	capped := buf[:len(buf):len(buf)]
	m1, e1 := mpd.MPDFromBytes(capped)
	if !bytes.Equal(buf, data) {
		t.Failf("buffer-changed", "reading changed the buffer at byte %s\n%s", firstDiff(string(buf), string(data)), clip(string(data), 2000))
		return false
	}
	m2, e2 := mpd.ReadFromString(string(data))
	m3, e3 := mpd.ReadFromFile(path)
	ms := []*mpd.MPD{m1, m2, m3}
	for i, e := range []error{e1, e2, e3} {
		if (e == nil) != (e1 == nil) {
			t.Failf("verdicts", "MPDFromBytes: %v, ReadFromString: %v, ReadFromFile: %v\n%s", e1, e2, e3, clip(string(data), 3000))
			return false
		}
		if (e == nil) != (ms[i] != nil) {
			t.Failf("mpd-and-error", "reader %d gives MPD %t with error %v\n%s", i, ms[i] != nil, e, clip(string(data), 3000))
			return false
		}
	}
	t.Obs("inputs read in all ways")
	t.Nontrivial(string(data))
	if e1 != nil {
		t.Obs("inputs refused in all ways")
		return true
	}
	t.Obs("inputs accepted in all ways")
	want := dump(m1)
	for i, m := range ms {
		if m == nil {
			return false
		}
		if g := dump(m); g != want {
			t.Failf("results", "reader %d gives another MPD, at %s\n%s", i, firstDiff(g, want), clip(string(data), 3000))
			return false
		}
		f := newFamily()
		f.adoptMPD(m)
		if e := f.judge(); e != "" {
			t.Failf("links", "reader %d: %s\n%s", i, e, clip(string(data), 3000))
			return false
		}
		t.ObsN("links compared", len(f.periods)+len(f.sets)+len(f.reps)+len(f.subs))
	}
	w1, err1 := m1.WriteToString(" ", true)
	for i, m := range ms[1:] {
		if w, err := m.WriteToString(" ", true); w != w1 || (err == nil) != (err1 == nil) {
			t.Failf("written", "what reader %d gives is written differently (%v, %v) at %s\n%s", i+1, err1, err, firstDiff(w, w1), clip(string(data), 3000))
			return false
		}
	}
	// changing one result, or the buffer, changes no other
	mem := map[uintptr]string{}
	for _, m := range ms {
		own := map[uintptr]string{}
		memory(reflect.ValueOf(m), own, "MPD")
		for p, w := range own {
			if w2, ok := mem[p]; ok {
				t.Failf("shared", "%s of one result is %s of another\n%s", w, w2, clip(string(data), 3000))
				return false
			}
		}
		for p, w := range own {
			mem[p] = w
		}
	}
	for i := range buf {
		buf[i] = 'x'
	}
	if dump(m1) != want {
		t.Failf("held", "the MPD changes with the buffer it was read from\n%s", clip(string(data), 3000))
		return false
	}
	scramble(reflect.ValueOf(m2))
	if dump(m1) != want || dump(m3) != want {
		t.Failf("shared", "changing one result changes another\n%s", clip(string(data), 3000))
		return false
	}
	// overwriting the file in place does not reach what was read from it
	if fi, err := os.Lstat(path); err == nil && fi.Mode().IsRegular() {
		f, err := os.OpenFile(path, os.O_WRONLY, 0)
		must(err)
		_, err = f.WriteAt(bytes.Repeat([]byte{'y'}, len(data)), 0)
		must(err)
		must(f.Close())
		if dump(m3) != want {
			t.Failf("held", "the MPD changes with the file it was read from\n%s", clip(string(data), 3000))
			return false
		}
	}
	return true
}

func runC25(c *Ctx) {
	dir, err := os.MkdirTemp("", "verif-c25-")
	if err != nil {
		fmt.Println("INCONCLUSIVE: no scratch directory:", err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	var shipped [][]byte
	for _, pat := range []string{"/repo/mpd/testdata/*/*.mpd", "/repo/mpd/testdata/*/*/*.mpd"} {
		fs, _ := filepath.Glob(pat)
		for _, f := range fs {
			if b, err := os.ReadFile(f); err == nil {
				shipped = append(shipped, b)
			}
		}
	}
	input := func(t *T) []byte {
		r := t.R
		g := newGen(r)
		g.budget = []int{10, 40, 120}[r.IntN(3)]
		doc := func() string { return newSurface(r).render(g.doc([]int{2, 5, 12, 30}[r.IntN(4)])) }
		switch r.IntN(10) {
		case 0:
			return []byte(damage(r, doc()))
		case 1:
			if len(shipped) > 0 {
				return append([]byte(nil), shipped[r.IntN(len(shipped))]...)
			}
		case 2:
			return []byte(soupText(t, 1+r.IntN(30)))
		case 3:
			d := doc()
			return []byte(d[:r.IntN(len(d)+1)])
		case 4: // things before and after
			pre := []string{"\ufeff", "\n", " \t\r\n", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\"?>", "<?xml version=\"1.0\" encoding=\"latin1\"?>", "<?xml version='1.1'?>", "<!DOCTYPE MPD>", "\x00", "\xff\xfe"}
			post := []string{"", "\n", "\x00", "<x/>", " trailing", "<!-- c -->", "\r\n\r\n", "<", "\xff", "]]>"}
			m := &mpd.MPD{XMLNs: nsDASH, Profiles: "p", Id: "x"}
			s, _ := m.WriteToString("", false)
			return []byte(pre[r.IntN(len(pre))] + s + post[r.IntN(len(post))])
		case 5:
			return [][]byte{{}, []byte("\n"), []byte("<MPD/>"), []byte("<"), []byte("<MPD>"), []byte("\ufeff"), {0}, []byte("x")}[r.IntN(8)]
		case 6: // long enough to cross the usual buffer sizes
			size := []int{4096, 8192, 32768, 65536, 131072}[r.IntN(5)] + r.IntN(5) - 2
			m := &mpd.MPD{XMLNs: nsDASH, Profiles: "p"}
			m.BaseURL = []*mpd.BaseURLType{mpd.NewBaseURL("")}
			s, _ := m.WriteToString("", false)
			m.BaseURL[0].Value = mpd.AnyURI(strings.Repeat("ab€", max(1, (size-len(s))/5)))
			s, _ = m.WriteToString("", false)
			for len(s) < size {
				s += " "
			}
			return []byte(s)
		}
		return []byte(doc())
	}
	c.Cases("inputs", c.N(10000, 250000), func(t *T) {
		data := input(t)
		path := filepath.Join(dir, fmt.Sprintf("in-%d.mpd", t.Idx))
		must(os.WriteFile(path, data, 0o600))
		defer os.Remove(path)
		before, err := os.Stat(path)
		must(err)
		old := time.Unix(1_000_000_000+int64(t.Idx), 0)
		must(os.Chtimes(path, old, old))
		// the file is as it was after it has been read
		_, _ = mpd.ReadFromFile(path)
		after, err := os.Stat(path)
		must(err)
		now, err := os.ReadFile(path)
		must(err)
		if !bytes.Equal(now, data) || !after.ModTime().Equal(old) || after.Mode() != before.Mode() || after.Size() != before.Size() {
			t.Failf("file-changed", "reading changed the file: size %d then %d, mode %v then %v, time %v then %v", before.Size(), after.Size(), before.Mode(), after.Mode(), old, after.ModTime())
			return
		}
		t.Obs("files unchanged by reading")
		agree(t, data, path)
		if t.Idx < 3 {
			t.Sample("%s", clip(string(data), 500))
		}
	})
	c.Require("inputs accepted in all ways", 3000)
	c.Require("inputs refused in all ways", 500)
	c.Require("links compared", 1000)

	// Ways to a file.
	ways := []string{"symlink", "symlink chain", "hard link", "relative", "odd name", "dots", "deep", "fifo", "fifo in pieces", "read-only", "long name", "double slash", "link and dots", "no directory"}
	c.Serial("ways", len(ways)*c.N(20, 300), func(t *T) {
		way := ways[t.Idx%len(ways)]
		data := input(t)
		sub := filepath.Join(dir, fmt.Sprintf("w%d", t.Idx))
		must(os.Mkdir(sub, 0o700))
		defer os.RemoveAll(sub)
		real := filepath.Join(sub, "real.mpd")
		must(os.WriteFile(real, data, 0o600))
		path := real
		switch way {
		case "symlink":
			path = filepath.Join(sub, "link")
			must(os.Symlink("real.mpd", path))
		case "symlink chain":
			must(os.Symlink("real.mpd", filepath.Join(sub, "l1")))
			must(os.Symlink(filepath.Join(sub, "l1"), filepath.Join(sub, "l2")))
			path = filepath.Join(sub, "l2")
		case "hard link":
			path = filepath.Join(sub, "hard")
			must(os.Link(real, path))
		case "relative":
			wd, err := os.Getwd()
			must(err)
			path, err = filepath.Rel(wd, real)
			must(err)
		case "odd name":
			names := []string{"a b", "é€", "%20", "-", "a\nb", "$Number$.mpd", "#x?y=z", "\xff\xfe", "file:x", "~", " a", "a ", "a.mpd ", "a\t", "a\n", " ", "...", "a.", ".mpd", "a.mpd.gz", "a.gz", "A.MPD", "e\u0301", "$HOME", "*", "[a]", "a\\b", "\"a\"", "'a'", "\ufeffa", "%41", "a%00", "http:x", "a,b", "nul", "?a=b", "#"}
			for i, n := range names { // all of them, and the rest of the case with one
				if i != t.Idx/len(ways)%len(names) {
					p := filepath.Join(sub, n)
					must(os.WriteFile(p, data, 0o600))
					agree(t, data, p)
				}
			}
			path = filepath.Join(sub, names[t.Idx/len(ways)%len(names)])
			must(os.Rename(real, path))
		case "dots":
			path = sub + "/./../" + filepath.Base(sub) + "/real.mpd"
		case "link and dots": // .. after a link is the directory above the one it leads to
			must(os.MkdirAll(filepath.Join(sub, "x/y"), 0o700))
			must(os.Symlink(filepath.Join(sub, "x/y"), filepath.Join(sub, "link")))
			must(os.Rename(real, filepath.Join(sub, "x/real.mpd")))
			if t.R.IntN(2) == 0 {
				must(os.WriteFile(filepath.Join(sub, "real.mpd"), []byte("<MPD id=\"another file\"></MPD>"), 0o600))
			}
			real = filepath.Join(sub, "x/real.mpd")
			path = sub + "/link/../real.mpd"
		case "no directory":
			must(os.MkdirAll(filepath.Join(sub, "x"), 0o700))
			path = sub + "/x/../real.mpd/" // a file is no directory
			if t.R.IntN(2) == 0 {
				path = sub + "/nowhere/../real.mpd"
			}
			m, err := mpd.ReadFromFile(path)
			t.Evals(1)
			if m != nil || err == nil {
				t.Failf("unreadable", "a path through what is no directory is read: %q", path)
			}
			t.Obs("way to a file: " + way)
			return
		case "double slash":
			path = sub + "//real.mpd"
		case "deep":
			d := sub
			for i := 0; i < 20; i++ {
				d = filepath.Join(d, "d")
			}
			must(os.MkdirAll(d, 0o700))
			path = filepath.Join(d, "m.mpd")
			must(os.Rename(real, path))
		case "long name":
			path = filepath.Join(sub, strings.Repeat("n", 255))
			must(os.Rename(real, path))
		case "read-only":
			must(os.Chmod(real, 0o400))
			m1, e1 := mpd.ReadFromFile(real)
			m2, e2 := mpd.MPDFromBytes(data)
			if (e1 == nil) != (e2 == nil) || e1 == nil && dump(m1) != dump(m2) {
				t.Failf("ways", "%s: ReadFromFile: %v, MPDFromBytes: %v", way, e1, e2)
			}
			t.Obs("way to a file: " + way)
			return
		case "fifo", "fifo in pieces":
			path = filepath.Join(sub, "fifo")
			must(syscall.Mkfifo(path, 0o600))
			done := make(chan bool)
			go func() {
				defer close(done)
				f, err := os.OpenFile(path, os.O_WRONLY, 0)
				if err != nil {
					return
				}
				defer f.Close()
				if way == "fifo" {
					f.Write(data)
					return
				}
				for i, k := 0, 0; i < len(data); k++ {
					n := min(len(data)-i, 1+(k*37)%511)
					if _, err := f.Write(data[i : i+n]); err != nil {
						return
					}
					i += n
				}
			}()
			m1, e1 := mpd.ReadFromFile(path)
			// If it was not read, nobody waits for the writer.
			if f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
				defer f.Close()
				go io.Copy(io.Discard, f)
			}
			<-done
			m2, e2 := mpd.MPDFromBytes(data)
			if (e1 == nil) != (e2 == nil) || e1 == nil && dump(m1) != dump(m2) {
				t.Failf("ways", "%s: ReadFromFile: %v, MPDFromBytes: %v\n%s", way, e1, e2, clip(string(data), 2000))
			}
			t.Obs("way to a file: " + way)
			return
		}
		agree(t, data, path)
		if l := openIn(dir); len(l) > 0 {
			t.Failf("descriptors", "left open after reading by %s: %v", way, l)
		}
		t.Obs("way to a file: " + way)
	})
	for _, w := range ways {
		c.Require("way to a file: "+w, 10)
	}

	// Large files are read to their end.
	sizes := []int{1<<20 + 3, 5 << 20, 9<<20 + 1, 18 << 20, 34 << 20, 68 << 20}
	if c.Thorough() {
		sizes = append(sizes, 130<<20, 260<<20, 520<<20)
	}
	c.Serial("large", len(sizes)*3, func(t *T) {
		size := sizes[t.Idx/3]
		pad, how := "", []string{"comment", "text", "periods"}[t.Idx%3]
		switch how {
		case "comment":
			pad = "<!--" + strings.Repeat("x", size) + "-->"
		case "text":
			pad = "<BaseURL>" + strings.Repeat("x", size) + "</BaseURL>"
		case "periods":
			if size > 40<<20 {
				size = 40 << 20
			}
			pad = strings.Repeat(`<Period duration="PT1S"><SupplementalProperty schemeIdUri="urn:`+strings.Repeat("x", 4000)+`"/></Period>`, size/4090)
		}
		data := []byte(`<MPD profiles="p">` + pad + `<Period id="last"><AdaptationSet><Representation id="r"/></AdaptationSet></Period></MPD>`)
		path := filepath.Join(dir, "large.mpd")
		must(os.WriteFile(path, data, 0o600))
		defer os.Remove(path)
		m1, e1 := mpd.ReadFromFile(path)
		m2, e2 := mpd.MPDFromBytes(data)
		if e1 != nil || e2 != nil {
			t.Failf("large", "%s of %d bytes: ReadFromFile: %v, MPDFromBytes: %v", how, size, e1, e2)
			return
		}
		for i, m := range []*mpd.MPD{m1, m2} {
			want := 1
			if how == "periods" {
				want = size/4090 + 1
			}
			if len(m.Periods) != want || m.Periods[want-1].Id != "last" || m.Periods[want-1].AdaptationSets[0].Representations[0].Parent() == nil {
				t.Failf("large", "%s of %d bytes: reader %d gives %d Periods, want %d", how, size, i, len(m.Periods), want)
				return
			}
			if how == "text" && (len(m.BaseURL) != 1 || len(m.BaseURL[0].Value) != size) {
				t.Failf("large", "%s of %d bytes: reader %d loses text", how, size, i)
				return
			}
			if how == "periods" {
				if idx, err := m.Periods[want-1].GetIndex(); err != nil || idx != want-1 {
					t.Failf("links", "the last Period has index %d (%v), want %d", idx, err, want-1)
				}
			}
		}
		t.Obs("large files read to the end")
		t.Nontrivial("large", how, fmt.Sprint(size))
	})
	c.Require("large files read to the end", 18)

	// What cannot be read.
	bad := []struct {
		name string
		make func(sub string) string
	}{
		{"absent", func(s string) string { return filepath.Join(s, "absent.mpd") }},
		{"empty path", func(s string) string { return "" }},
		{"directory", func(s string) string { return s }},
		{"directory with slash", func(s string) string { return s + "/" }},
		{"dangling link", func(s string) string {
			must(os.Symlink("nowhere", filepath.Join(s, "l")))
			return filepath.Join(s, "l")
		}},
		{"link to itself", func(s string) string {
			must(os.Symlink("l", filepath.Join(s, "l")))
			return filepath.Join(s, "l")
		}},
		{"below a file", func(s string) string {
			must(os.WriteFile(filepath.Join(s, "f"), []byte("<MPD/>"), 0o600))
			return filepath.Join(s, "f", "x.mpd")
		}},
		{"file with slash", func(s string) string {
			must(os.WriteFile(filepath.Join(s, "f"), []byte("<MPD/>"), 0o600))
			return filepath.Join(s, "f") + "/"
		}},
		{"name too long", func(s string) string { return filepath.Join(s, strings.Repeat("n", 256)) }},
		{"NUL in path", func(s string) string {
			must(os.WriteFile(filepath.Join(s, "f"), []byte("<MPD/>"), 0o600))
			return filepath.Join(s, "f") + "\x00.mpd"
		}},
		{"removed", func(s string) string {
			p := filepath.Join(s, "f")
			must(os.WriteFile(p, []byte("<MPD/>"), 0o600))
			must(os.Remove(p))
			return p
		}},
		{"text of a manifest as path", func(s string) string { return "<MPD/>" }},
	}
	c.Serial("unreadable", len(bad)*2, func(t *T) {
		b := bad[t.Idx%len(bad)]
		sub := filepath.Join(dir, fmt.Sprintf("u%d", t.Idx))
		must(os.Mkdir(sub, 0o700))
		defer os.RemoveAll(sub)
		path := b.make(sub)
		m, err := mpd.ReadFromFile(path)
		if err == nil || m != nil {
			t.Failf("unreadable", "%s: ReadFromFile gives MPD %t and error %v", b.name, m != nil, err)
		}
		if l := openIn(dir); len(l) > 0 {
			t.Failf("descriptors", "left open after %s: %v", b.name, l)
		}
		t.Obs("unreadable files refused")
		t.Nontrivial(b.name)
	})
	c.Require("unreadable files refused", int64(len(bad)))

	// Many readers of one buffer and one file at a time.
	c.Serial("together", c.N(150, 3000), func(t *T) {
		data := input(t)
		path := filepath.Join(dir, fmt.Sprintf("t%d.mpd", t.Idx))
		must(os.WriteFile(path, data, 0o600))
		defer os.Remove(path)
		ref, rerr := mpd.MPDFromBytes(append([]byte(nil), data...))
		want := ""
		if rerr == nil {
			want = dump(ref)
		}
		s := string(data)
		var wg sync.WaitGroup
		got := make([]string, 12)
		for i := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						got[i] = fmt.Sprintf("panic: %v", r)
					}
				}()
				var m *mpd.MPD
				var err error
				switch i % 3 {
				case 0:
					m, err = mpd.MPDFromBytes(data)
				case 1:
					m, err = mpd.ReadFromString(s)
				case 2:
					m, err = mpd.ReadFromFile(path)
				}
				if (err == nil) != (rerr == nil) || (m == nil) != (err != nil) {
					got[i] = fmt.Sprintf("error %v, alone %v", err, rerr)
				} else if m != nil && dump(m) != want {
					got[i] = "another MPD at " + firstDiff(dump(m), want)
				}
			}()
		}
		wg.Wait()
		for i, g := range got {
			if g != "" {
				t.Failf("together", "reader %d of 12 at the same time: %s\n%s", i, g, clip(s, 3000))
				return
			}
		}
		if string(data) != s {
			t.Failf("buffer-changed", "reading changed the buffer at %s", firstDiff(string(data), s))
		}
		t.Obs("inputs read by 12 readers at a time")
		if l := openIn(dir); len(l) > 0 {
			t.Failf("descriptors", "left open: %v", l)
		}
	})
	c.Require("inputs read by 12 readers at a time", 50)
}
