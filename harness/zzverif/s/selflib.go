package s

import (
	"bufio"
	"bytes"
	"cmp"
	"container/list"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"maps"
	"math"
	"math/big"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/template"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

type libT struct {
	A string `json:"a"`
	B []int  `json:"b,omitempty"`
	m map[string]int
}

type libErr struct{ n int }

func (e *libErr) Error() string { return "lib " + strconv.Itoa(e.n) }

func libMap[K comparable, V any](m map[K]V, k K, f func() V) V {
	if v, ok := m[k]; ok {
		return v
	}
	m[k] = f()
	return m[k]
}

var (
	libOnce sync.Once
	libWord = regexp.MustCompile(`^[a-z]+(\d+)?$`)
	libPool = sync.Pool{New: func() any { return new(strings.Builder) }}
)

// libUses are uses of the standard library a change of the code could make.
var libUses = []func(s string) any{
	func(s string) any { return strings.ToUpper(s) + strings.TrimSpace(s) },
	func(s string) any { return strings.Fields(s) },
	func(s string) any { return strings.Split(s, ",") },
	func(s string) any {
		return strings.FieldsFunc(s, func(r rune) bool { return r == ',' || unicode.IsSpace(r) })
	},
	func(s string) any {
		return strings.Map(func(r rune) rune {
			if unicode.IsUpper(r) {
				return -1
			}
			return r
		}, s)
	},
	func(s string) any { return strings.NewReplacer(" ", "", "\t", "", "a", "bb").Replace(s) },
	func(s string) any { a, b, ok := strings.Cut(s, "="); return []any{a, b, ok} },
	func(s string) any { return strings.EqualFold(s, "KEY=1") },
	func(s string) any { return strings.TrimFunc(s, unicode.IsDigit) },
	func(s string) any {
		return []any{strings.Count(s, "a"), strings.LastIndex(s, "a"), strings.IndexAny(s, "=,"), strings.ContainsRune(s, 'k'), strings.IndexFunc(s, unicode.IsSpace)}
	},
	func(s string) any {
		return strings.Repeat(s, 2) + strings.TrimLeft(s, " k") + strings.TrimRight(s, "1 ") + strings.TrimPrefix(s, "k") + strings.TrimSuffix(s, "1")
	},
	func(s string) any { return strings.SplitN(s, "=", 2) },
	func(s string) any { return strings.Title(s) },
	func(s string) any { return libWord.MatchString(s) },
	func(s string) any { return regexp.MustCompile(`\s+`).ReplaceAllString(s, " ") },
	func(s string) any { return regexp.MustCompile(`(\w+)\s*=`).FindStringSubmatch(s) },
	func(s string) any { n, err := strconv.Atoi(s); return []any{n, err} },
	func(s string) any { n, err := strconv.ParseUint(s, 10, 64); return []any{n, err} },
	func(s string) any { n, err := strconv.ParseFloat(s, 64); return []any{n, err} },
	func(s string) any { n, err := strconv.ParseBool(s); return []any{n, err} },
	func(s string) any { n, err := strconv.Unquote(s); return []any{n, err} },
	func(s string) any { return strconv.Quote(s) + strconv.FormatInt(int64(len(s)), 2) },
	func(s string) any {
		n, ok := new(big.Int).SetString(s, 10)
		if !ok {
			return "no"
		}
		return n.String()
	},
	func(s string) any { x := strings.Split(s, ""); sort.Strings(x); return x },
	func(s string) any {
		x := strings.Split(s, "")
		sort.Slice(x, func(i, j int) bool { return x[i] > x[j] })
		return x
	},
	func(s string) any { x := []byte(s); slices.Sort(x); return string(slices.Compact(x)) },
	func(s string) any {
		x := strings.Split(s, ",")
		slices.SortFunc(x, func(a, b string) int { return cmp.Compare(len(a), len(b)) })
		return []any{x, slices.Contains(x, "a"), slices.Index(x, "b")}
	},
	func(s string) any { x := strings.Split(s, ""); slices.Reverse(x); return x },
	func(s string) any {
		m := map[string]int{}
		for _, r := range s {
			m[string(r)]++
		}
		n := maps.Clone(m)
		delete(n, "a")
		return []any{len(m), len(n), m["a"], maps.Equal(m, n)}
	},
	func(s string) any {
		m := map[string][]int{}
		for i, r := range s {
			m[string(r)] = append(m[string(r)], i)
		}
		return m
	},
	func(s string) any {
		var b bytes.Buffer
		b.WriteString(s)
		b.WriteByte('-')
		b.WriteRune('é')
		fmt.Fprintf(&b, "%5d|%-4s|%04d|%x|%q|%+v|%T|%t", len(s), s, 7, s, s, libT{A: s}, s, true)
		return b.String()
	},
	func(s string) any {
		sc := bufio.NewScanner(strings.NewReader(s))
		sc.Split(bufio.ScanWords)
		var l []string
		for sc.Scan() {
			l = append(l, sc.Text())
		}
		return l
	},
	func(s string) any {
		sc := bufio.NewScanner(strings.NewReader(s))
		var l []string
		for sc.Scan() {
			l = append(l, sc.Text())
		}
		return l
	},
	func(s string) any { b, _ := io.ReadAll(strings.NewReader(s)); return string(b) },
	func(s string) any {
		r := bufio.NewReader(strings.NewReader(s))
		x, err := r.ReadString('=')
		return []any{x, err}
	},
	func(s string) any { b, err := json.Marshal(libT{A: s, B: []int{1}}); return []any{string(b), err} },
	func(s string) any {
		var t libT
		err := json.Unmarshal([]byte(`{"a":"x","b":[1,2]}`), &t)
		return []any{t.A, t.B, err}
	},
	func(s string) any { return json.Valid([]byte(s)) },
	func(s string) any {
		var b bytes.Buffer
		err := json.Indent(&b, []byte(`{"a":[1,{}]}`), "", "  ")
		return []any{b.String(), err}
	},
	func(s string) any {
		var b bytes.Buffer
		err := json.Compact(&b, []byte(`{ "a" : [1, {}] }`))
		return []any{b.String(), err}
	},
	func(s string) any {
		e := fmt.Errorf("x: %w", &libErr{len(s)})
		var l *libErr
		return []any{errors.As(e, &l), l.n, errors.Is(e, l), errors.Unwrap(e) == error(l)}
	},
	func(s string) any { return errors.Join(errors.New(s), errors.New("b")).Error() },
	func(s string) any { return reflect.DeepEqual(strings.Split(s, ","), []string{"a", "b"}) },
	func(s string) any { return reflect.TypeOf(s).String() + reflect.TypeOf(libT{}).Name() },
	func(s string) any { return reflect.ValueOf(libT{A: s}).Field(0).String() },
	func(s string) any { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() },
	func(s string) any { x := sha256.Sum256([]byte(s)); return hex.EncodeToString(x[:4]) },
	func(s string) any { return base64.StdEncoding.EncodeToString([]byte(s)) },
	func(s string) any {
		n := 0
		libOnce.Do(func() { n++ })
		libOnce.Do(func() { n++ })
		return n <= 1
	},
	func(s string) any {
		b := libPool.Get().(*strings.Builder)
		b.Reset()
		b.WriteString(s)
		x := b.String()
		libPool.Put(b)
		return x
	},
	func(s string) any {
		var m sync.Map
		m.Store(s, 1)
		v, ok := m.Load(s)
		_, l := m.LoadOrStore("a", 2)
		return []any{v, ok, l}
	},
	func(s string) any { var n atomic.Int64; n.Add(2); return n.Load() },
	func(s string) any { var n int32; atomic.AddInt32(&n, 3); return atomic.LoadInt32(&n) },
	func(s string) any {
		var mu sync.RWMutex
		mu.RLock()
		defer mu.RUnlock()
		return len(s)
	},
	func(s string) any {
		ch := make(chan string, 2)
		ch <- s
		close(ch)
		var l []string
		for x := range ch {
			l = append(l, x)
		}
		return l
	},
	func(s string) any {
		var wg sync.WaitGroup
		var x string
		wg.Add(1)
		go func() { defer wg.Done(); x = s + "!" }()
		wg.Wait()
		return x
	},
	func(s string) any {
		ch := make(chan int)
		go func() { ch <- len(s) }()
		return <-ch
	},
	func(s string) any {
		l := list.New()
		l.PushBack(s)
		l.PushFront("a")
		return []any{l.Len(), l.Front().Value}
	},
	func(s string) any { return []any{math.MaxInt64, math.Floor(1.5), min(len(s), 3), max(1, 2)} },
	func(s string) any {
		m := map[int]string{1: s}
		clear(m)
		return len(m)
	},
	func(s string) any {
		return []any{filepath.Ext(s), filepath.Base(s), filepath.Join("a", s), filepath.Clean(s)}
	},
	func(s string) any {
		return []any{utf8.RuneCountInString(s), utf8.ValidString(s), []rune(s)[:1], unicode.IsLetter('é'), unicode.In('x', unicode.Latin)}
	},
	func(s string) any {
		var b strings.Builder
		err := template.Must(template.New("x").Parse("{{.A}}!")).Execute(&b, libT{A: s})
		return []any{b.String(), err}
	},
	func(s string) any { return time.Duration(1500) * time.Millisecond },
	func(s string) any { t := time.Now(); return time.Since(t) >= 0 },
	func(s string) any {
		m := map[[2]string]bool{{s, "a"}: true}
		return []any{m[[2]string{s, "a"}], m[[2]string{"a", s}]}
	},
	func(s string) any {
		m := map[libK]int{{s, 1}: 4}
		return []any{m[libK{s, 1}], m[libK{"k", 1}]}
	},
	func(s string) any { return libMap(map[string]int{}, s, func() int { return len(s) }) },
	func(s string) any {
		var x any = s
		switch v := x.(type) {
		case fmt.Stringer:
			return "stringer"
		case string:
			return "s" + v
		}
		return nil
	},
	func(s string) any {
		r := []any{}
		func() {
			defer func() { r = append(r, fmt.Sprint(recover())) }()
			_ = []int{1}[len(s)+5]
		}()
		func() {
			defer func() { r = append(r, fmt.Sprint(recover())) }()
			var m map[string]int
			m[s] = 1
		}()
		func() {
			defer func() { r = append(r, fmt.Sprint(recover())) }()
			var p *libT
			_ = p.A
		}()
		func() {
			defer func() { r = append(r, fmt.Sprint(recover())) }()
			var x any = s
			_ = x.(int)
		}()
		return r
	},
	func(s string) any {
		i := 0
	loop:
		for {
			switch {
			case i > 3:
				break loop
			case i == 1:
				i++
				fallthrough
			default:
				i++
			}
		}
		return i
	},
	func(s string) any {
		t := schema.Table{Name: s}
		c := t
		c.Name += "x"
		p := &t
		p.Columns = append(p.Columns, schema.Column{Name: s})
		return []any{t.Name, c.Name, len(c.Columns), len(t.Columns)}
	},
	func(s string) any {
		return fmt.Sprintf("%v %+v %#v %s %d", []string{s}, struct{ A, B string }{s, "b"}, s, []byte("x"), []int{1, 2})
	},
	func(s string) any { return fmt.Sprintf("%6.2f|%8s|%-8s|%c|%U|%e|%08b", 1.5, s, s, 'x', 'y', 1.5, 5) },
	func(s string) any {
		var a, b string
		n, err := fmt.Sscanf("x y", "%s %s", &a, &b)
		return []any{n, err, a, b}
	},
	func(s string) any { var a int; n, err := fmt.Sscan("12", &a); return []any{n, err, a} },
	func(s string) any { return strings.Compare(s, "k") + cmp.Compare(1, 2) },
	func(s string) any { return strings.ContainsAny(s, " \t") || strings.ContainsFunc(s, unicode.IsDigit) },
	func(s string) any { return strings.ToTitle(s) + strings.ToValidUTF8(s, "?") },
	func(s string) any {
		a, ok := strings.CutPrefix(s, "k")
		b, ok2 := strings.CutSuffix(s, "1")
		return []any{a, ok, b, ok2}
	},
	func(s string) any { return bytes.Fields([]byte(s)) },
	func(s string) any {
		return string(bytes.Title([]byte(s))) + string(bytes.Join([][]byte{[]byte(s), []byte("x")}, []byte("-")))
	},
	func(s string) any {
		r := strings.NewReader(s)
		c, _, err := r.ReadRune()
		return []any{c, err, r.Len()}
	},
	func(s string) any {
		type node struct {
			next *node
			v    string
		}
		var head *node
		for _, x := range strings.Split(s, "=") {
			head = &node{head, x}
		}
		out := ""
		for n := head; n != nil; n = n.next {
			out += n.v + ";"
		}
		return out
	},
	func(s string) any {
		i := sort.SearchStrings([]string{"a", "k", "z"}, s)
		j, ok := slices.BinarySearch([]string{"a", "k"}, s)
		return []any{i, j, ok}
	},
	func(s string) any { return sort.StringsAreSorted(strings.Split(s, "")) },
	func(s string) any {
		x := append([]string(nil), "b", s)
		sort.Stable(sort.Reverse(sort.StringSlice(x)))
		return x
	},
	func(s string) any { a := [3]string{s}; b := a; b[0] = "q"; return []any{a, b, a == b, len(a)} },
	func(s string) any { f := strings.ToUpper; g := (*libErr).Error; return f(s) + g(&libErr{3}) },
	func(s string) any {
		x := uint8(200)
		x += 100
		y := int8(100)
		y += 100
		return []any{x, y, 7 / 2, -7 / 2, -7 % 3, 1 << 3, 6 &^ 2, ^5}
	},
	func(s string) any {
		return fmt.Sprint(uint64(math.MaxUint64), int64(math.MinInt64), 3.0, 1e21, float32(0.1))
	},
	func(s string) any { c := complexSwitch(s); return c },
	func(s string) any { x := []byte(s); slices.Sort(x); return x },
	func(s string) any { x := []int{3, 1, 2, len(s)}; slices.Sort(x); return x },
	func(s string) any { x := []byte("cab"); x[0], x[1] = x[1], x[0]; return string(x) },
	func(s string) any { return string(slices.Compact([]byte("aabbc"))) },
	func(s string) any { h := uint32(2166136261); h *= 16777619; return h },
	func(s string) any { x := []uint32{3, 1, 2}; slices.Sort(x); return x },
	func(s string) any { x := []uint8{3, 1, 2}; slices.Sort(x); return x },
	func(s string) any { x := []byte("cab"); x[1], x[2] = x[2], x[1]; slices.Reverse(x); return x },
	func(s string) any { x := []uint8{3, 1, 2}; return x[1] < x[0] },
	func(s string) any {
		x := []uint8{3, 1, 2}
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return x
	},
	func(s string) any { x := []uint8{3, 1, 2}; return cmp.Less(x[1], x[0]) },
	func(s string) any { x := []uint8{3, 1, 2}; libIns(x); return x },
	func(s string) any { x := []byte(s + "ba"); return x[1] < x[0] },
	func(s string) any {
		r := []rune(s + " é")
		n := 0
		for _, c := range r {
			if c >= 'a' && c <= 'z' {
				n++
			}
		}
		return []any{len(r), n, string(r[1:])}
	},
	func(s string) any {
		n := 0
		for i, c := range s + "é" {
			if c >= 'a' && c <= 'z' || c > 200 {
				n += i
			}
		}
		return n
	},
	func(s string) any { return len(bytes.Fields([]byte(s))) },
	func(s string) any { x := []byte(s + "ba"); return cmp.Less(x[1], x[0]) },
	func(s string) any { x := []byte(s + "ba"); x[0], x[1] = x[1], x[0]; return string(x) },
	func(s string) any { x := []byte(s + "ba"); libIns(x); return string(x) },
	func(s string) any { x := []byte("bba"); libIns(x); return string(x) },
	func(s string) any { x := []byte(s + "ba"); libIns2(x); return string(x) },
	func(s string) any { x := []byte(s + "ba"); libIns3(x); return string(x) },
}

func libIns[E cmp.Ordered](data []E) {
	for i := 1; i < len(data); i++ {
		for j := i; j > 0 && cmp.Less(data[j], data[j-1]); j-- {
			data[j], data[j-1] = data[j-1], data[j]
		}
	}
}

func libIns2(data []byte) {
	for i := 1; i < len(data); i++ {
		for j := i; j > 0 && data[j] < data[j-1]; j-- {
			data[j], data[j-1] = data[j-1], data[j]
		}
	}
}

func libIns3(data []byte) {
	for i := 1; i < len(data); i++ {
		if data[i] < data[i-1] {
			data[i], data[i-1] = data[i-1], data[i]
		}
	}
}

type libK struct {
	s string
	n int
}

func complexSwitch(s string) string {
	switch s {
	case "a", "b":
		return "ab"
	case "key=1":
		return "key"
	}
	return "none"
}

// SelfLib: one use of the library on any of a few texts.
func SelfLib() {
	i := nd.Param("use")
	s := nd.OneOf("text", "key=1", "a", " k 1\n2", "12", "Key,b,a", "\"q\"", "1.5e3", "", "x.y/z")
	r := ""
	p := nd.Try(func() { r = fmt.Sprintf("%v", libUses[i](s)) })
	nd.Observe("use", strconv.Itoa(i))
	nd.Observe("text", s)
	if p != nil {
		r = fmt.Sprint("panic: ", p)
	}
	nd.Observe("result", r)
	nd.Reach("done")
}

// SelfLibs is the number of uses.
var SelfLibs = len(libUses)

// Funcs are the harnesses by name, for the replay program.
var Funcs = map[string]func(){"SelfLib": SelfLib}
