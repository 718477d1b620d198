package t1

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

func HStr() {
	s := vnd.StrOf("ab .=", 0, 3)
	var b strings.Builder
	b.Grow(10)
	b.WriteString(s)
	b.WriteByte('x')
	b.WriteRune('y')
	fmt.Fprintf(&b, "%d%s%v", 3, s, s)
	vnd.Assert(b.Len() == len(b.String()) && b.String() == s+"xy3"+s+s, "builder")
	before, after, ok := strings.Cut(s, "=")
	i := strings.Index(s, "=")
	if ok {
		vnd.Assert(before == s[:i] && after == s[i+1:], "cut")
	} else {
		vnd.Assert(i < 0 && before == s, "cut2")
	}
	vnd.Assert(strings.Count(s, "a")+strings.Count(s, "b")+strings.Count(s, " ")+strings.Count(s, ".")+strings.Count(s, "=") == len(s), "count")
	n := 0
	for _, f := range strings.Split(s, ".") {
		n += len(f) + 1
	}
	vnd.Assert(n == len(s)+1, "split")
	vnd.Assert(strings.Join(strings.SplitN(s, "=", 2), "=") == s, "splitn")
	vnd.Assert(strings.TrimFunc(s, unicode.IsSpace) == strings.TrimSpace(s), "trimfunc")
	vnd.Assert(strings.TrimLeft(strings.TrimRight(s, " "), " ") == strings.Trim(s, " "), "trim")
	vnd.Assert(strings.HasPrefix(s, "a") == (strings.TrimPrefix(s, "a") != s), "prefix")
	vnd.Assert(strings.HasSuffix(s, "a") == (strings.TrimSuffix(s, "a") != s), "suffix")
	vnd.Assert(strings.ContainsRune(s, 'a') == strings.ContainsAny(s, "a") && strings.Contains(s, "a") == (strings.IndexByte(s, 'a') >= 0), "contains")
	vnd.Assert(strings.EqualFold(strings.ToUpper(s), strings.ToLower(s)), "fold")
	vnd.Assert(strings.ReplaceAll(s, "a", "b") == strings.Map(func(r rune) rune {
		if r == 'a' {
			return 'b'
		}
		return r
	}, s), "map")
	vnd.Assert(strings.NewReplacer("a", "b").Replace(s) == strings.Replace(s, "a", "b", -1), "replacer")
	vnd.Assert(strings.LastIndex(s, "=") >= strings.Index(s, "=") && strings.LastIndexByte(s, '=') == strings.LastIndex(s, "="), "lastindex")
	vnd.Assert(strings.IndexFunc(s, unicode.IsLetter) == strings.IndexAny(s, "ab"), "indexfunc")
	vnd.Assert(strings.Repeat(s, 2) == s+s, "repeat")
	vnd.Assert(len(strings.Fields(s)) <= 2 && len(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' })) == len(strings.Fields(s)), "fields")
	vnd.Assert(utf8.RuneCountInString(s) == len(s) && len([]rune(s)) == len(s) && utf8.ValidString(s), "utf8")
	vnd.Assert(strings.Compare(s, s) == 0, "cmp")
	vnd.Assert(strings.Title("ab") == "Ab", "title")
	parts := strings.SplitAfter(s, ".")
	vnd.Assert(strings.Join(parts, "") == s, "splitafter")
	vnd.Reach("end")
}

func HBytes() {
	s := vnd.StrOf("ab \n", 0, 3)
	var buf bytes.Buffer
	buf.WriteString(s)
	buf.WriteByte('\n')
	buf.Write([]byte("z"))
	vnd.Assert(buf.String() == s+"\nz" && buf.Len() == len(s)+2, "buffer")
	vnd.Assert(bytes.Equal(buf.Bytes(), []byte(s+"\nz")), "eq")
	rd := bufio.NewReader(strings.NewReader(s + "\n"))
	line, err := rd.ReadString('\n')
	vnd.Assert(err == nil && strings.HasPrefix(s+"\n", line), "readstring")
	sc := bufio.NewScanner(bytes.NewReader([]byte(s)))
	n := 0
	for sc.Scan() {
		n += len(sc.Text())
	}
	vnd.Assert(n+strings.Count(s, "\n") == len(s), "scan")
	all, _ := io.ReadAll(strings.NewReader(s))
	vnd.Assert(string(all) == s, "readall")
	vnd.Assert(len(bytes.Split([]byte(s), []byte(" "))) == strings.Count(s, " ")+1, "bsplit")
	vnd.Assert(string(bytes.TrimSpace([]byte(s))) == strings.TrimSpace(s), "btrim")
	w := bufio.NewWriter(&buf)
	fmt.Fprintln(w, s)
	w.Flush()
	vnd.Assert(strings.HasSuffix(buf.String(), s+"\n"), "bufw")
	vnd.Reach("end")
}

type pair struct {
	k string
	n int
}

type byK []pair

func (b byK) Len() int           { return len(b) }
func (b byK) Less(i, j int) bool { return b[i].k < b[j].k }
func (b byK) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

func HSort() {
	a, c := vnd.StrOf("abc", 1, 2), vnd.StrOf("abc", 1, 2)
	l := []pair{{a, 1}, {c, 2}, {"b", 3}}
	sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
	vnd.Assert(l[0].k <= l[1].k && l[1].k <= l[2].k, "slice")
	sort.Sort(sort.Reverse(byK(l)))
	vnd.Assert(l[0].k >= l[1].k && l[1].k >= l[2].k, "reverse")
	sort.SliceStable(l, func(i, j int) bool { return l[i].k < l[j].k })
	sort.Stable(byK(l))
	ss := []string{a, c, "b"}
	sort.Strings(ss)
	i := sort.SearchStrings(ss, "b")
	vnd.Assert(ss[i] == "b" && sort.StringsAreSorted(ss), "search")
	ns := []int{3, len(a), 2}
	sort.Ints(ns)
	vnd.Assert(sort.IntsAreSorted(ns), "ints")
	j := sort.Search(3, func(i int) bool { return ss[i] >= "b" })
	vnd.Assert(i == j, "search2")
	vnd.Reach("end")
}

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

func HErr() {
	s := vnd.StrOf("0123-x", 0, 2)
	n, err := strconv.Atoi(s)
	e := fmt.Errorf("wrap: %w", &myErr{s})
	var me *myErr
	vnd.Assert(errors.As(e, &me) && me.s == s, "as")
	vnd.Assert(errors.Is(e, me) && errors.Unwrap(e) == error(me), "is")
	if err == nil {
		vnd.Assert(strconv.Itoa(n) == strings.TrimLeft(s, "0") || n == 0 || s[0] == '-', "itoa")
		m, _ := strconv.ParseInt(s, 10, 64)
		vnd.Assert(int(m) == n && fmt.Sprint(n) == strconv.FormatInt(m, 10), "parseint")
	} else {
		vnd.Assert(strings.Contains(err.Error(), "strconv.Atoi"), "atoi err")
	}
	b, err := strconv.ParseBool(s)
	vnd.Assert(err != nil || b == (s == "1"), "bool")
	vnd.Assert(strconv.Quote(s) == "\""+s+"\"" && fmt.Sprintf("%q", s) == strconv.Quote(s), "quote")
	u, err := strconv.Unquote("\"" + s + "\"")
	vnd.Assert(err == nil && u == s, "unquote")
	vnd.Assert(fmt.Sprintf("%-4s|%4s|%03d|%v|%+v|%T|%x|%t|%c", s, s, 7, []string{s}, pair{s, 1}, s, 255, true, 'c') != "", "fmt")
	vnd.Assert(fmt.Sprintf("%*d", 4, 7) == "   7" && fmt.Sprintf("%[2]s%[1]s", "a", "b") == "ba", "fmt2")
	vnd.Reach("end")
}

func HOs() {
	dir := vnd.TempDir()
	s := vnd.StrOf("ab\n", 0, 3)
	f := filepath.Join(dir, "x", "f")
	vnd.Assert(os.MkdirAll(filepath.Dir(f), 0755) == nil, "mkdir")
	vnd.Assert(os.WriteFile(f, []byte(s), 0644) == nil, "write")
	data, err := os.ReadFile(f)
	vnd.Assert(err == nil && string(data) == s, "read")
	tmp, err := os.CreateTemp(dir, "t*.x")
	vnd.Assert(err == nil, "createtemp")
	tmp.WriteString(s)
	tmp.Write([]byte("z"))
	tmp.Sync()
	tmp.Close()
	vnd.Assert(os.Rename(tmp.Name(), f+"2") == nil, "rename")
	st, err := os.Stat(f + "2")
	vnd.Assert(err == nil && st.Size() == int64(len(s)+1) && !st.IsDir() && st.Mode().IsRegular(), "stat")
	h, err := os.OpenFile(f, os.O_APPEND|os.O_WRONLY, 0644)
	vnd.Assert(err == nil, "open")
	io.WriteString(h, "y")
	fmt.Fprint(h, "w")
	h.Close()
	h, _ = os.Open(f)
	data, _ = io.ReadAll(h)
	h.Close()
	vnd.Assert(string(data) == s+"yw", "append")
	_, err = os.Stat(f + "none")
	vnd.Assert(os.IsNotExist(err) && errors.Is(err, os.ErrNotExist), "notexist")
	list, _ := os.ReadDir(filepath.Dir(f))
	vnd.Assert(len(list) == 2, "readdir")
	ms, _ := filepath.Glob(filepath.Join(dir, "x", "f*"))
	vnd.Assert(len(ms) == 2, "glob")
	n := 0
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error { n++; return nil })
	vnd.Assert(n == 4, "walkdir")
	os.Chmod(f, 0600)
	os.Remove(f)
	os.RemoveAll(filepath.Dir(f))
	vnd.Assert(filepath.Ext("a.b.c") == ".c" && path.Join("a", "..", "b") == "b" && filepath.Base("a/b") == "b" && filepath.Clean("a//b/../c") == "a/c", "path")
	rel, err := filepath.Rel("/a/b", "/a/c")
	vnd.Assert(err == nil && rel == "../c" && filepath.IsAbs("/a"), "rel")
	mt, _ := filepath.Match("a*", "ab")
	vnd.Assert(mt, "match")
	vnd.Reach("end")
}

func HSync() {
	var mu sync.RWMutex
	var once sync.Once
	var wg sync.WaitGroup
	var n int64
	var m sync.Map
	total := 0
	ch := make(chan int, 3)
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			mu.Lock()
			total += i
			mu.Unlock()
			atomic.AddInt64(&n, 1)
			once.Do(func() { ch <- 7 })
			m.Store(i, i)
		}(i)
	}
	wg.Wait()
	mu.RLock()
	vnd.Assert(total == 3 && atomic.LoadInt64(&n) == 3, "sum")
	mu.RUnlock()
	select {
	case v := <-ch:
		vnd.Assert(v == 7, "once")
	default:
		vnd.Assert(false, "empty")
	}
	_, ok := m.Load(1)
	vnd.Assert(ok, "map")
	select {
	case <-ch:
	case <-time.After(time.Millisecond):
	}
	t := time.Now()
	vnd.Assert(time.Since(t) >= 0 && !t.Add(time.Second).Before(t), "time")
	d, err := time.ParseDuration("1s")
	vnd.Assert(err == nil && d == time.Second && d.String() == "1s", "dur")
	vnd.Reach("end")
}
