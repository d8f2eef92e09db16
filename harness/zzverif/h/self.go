package h

import (
	"sort"
	"strings"

	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// Checks of the machine itself: the observations of every path are compared
// with those of a native run.

// SelfMaps: maps with symbolic keys against a list.
func SelfMaps() {
	m := map[string]bool{}
	c := map[string]string{}
	set := map[string]struct{}{}
	keys := []string{"a", "b", "c"}
	for i := 0; i < 4; i++ {
		k := nd.OneOf(lab("k", i), keys...)
		v := nd.Bool(lab("v", i))
		m[k] = v
		c[k] = nd.OneOf(lab("s", i), "x", "y", "zz")
		set[k] = struct{}{}
	}
	q := nd.OneOf("q", "a", "b", "c", "d")
	v, ok := m[q]
	if v && ok {
		nd.Observe("hit", c[q])
	}
	_, in := set[q]
	nd.Assert(in == ok, "both maps have the key")
	if nd.Bool("del") {
		delete(m, q)
		_, ok = m[q]
		nd.Assert(!ok, "deleted")
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	nd.Assert(len(ks) == len(m), "len")
	sort.Strings(ks)
	nd.Observe("keys", strings.Join(ks, ","))
	nd.Observe("q", q+c[q])
}

type selfShape interface{ area(x int) int }
type selfA struct{ k int }
type selfB struct{ k, j int }

func (a selfA) area(x int) int { return a.k * x }
func (b *selfB) area(x int) int {
	b.j++
	return b.k*x + b.j
}

var selfCount int

func selfBump(b bool) bool { selfCount++; return b }

// SelfBranches observes what branches, switches, loops, calls and defers do
// with symbolic operands; every path is compared with the compiled code.
func SelfBranches() {
	x := nd.Int("x", 0, 6)
	y := nd.Int("y", 0, 4)
	s := nd.OneOf("s", "a", "bb", "ccc", "public", "private")
	out := ""
	add := func(t string) { out += t + ";" }
	selfCount = 0
	if x == 1 || x == 2 {
		add("12")
	} else if x == 3 && y > 1 {
		add("3y")
	} else if x > 3 && (y == 0 || y == 4) || s == "bb" && x < 1 {
		add("mixed")
	} else {
		add("none")
	}
	switch x {
	case 0, 4:
		add("s04")
	case 1:
		add("s1")
		fallthrough
	case 2:
		add("s2")
	case 5, 6:
		if y == 3 {
			break
		}
		add("s56")
	default:
		add("sd")
	}
	switch {
	case s == "public" || s == "private":
		add("vis")
	case len(s) == y:
		add("len")
	case s < "b":
		add("lt")
	}
	if selfBump(x > 2) && selfBump(y > 2) || selfBump(s == "a") {
		add("bump")
	}
	add(lab(selfCount))
	n := 0
	for i := 0; i < 4; i++ {
		if i == y {
			continue
		}
		if i > x {
			break
		}
		n += i*x - y
	}
	add(lab(n))
	var sh selfShape = selfA{2}
	if y%2 == 1 {
		sh = &selfB{k: 3}
	}
	add(lab(sh.area(x), "/", sh.area(y)))
	r := func() (r int) {
		defer func() {
			if e := recover(); e != nil {
				r = 100 + y
			}
		}()
		a := []int{1, 2, 3}
		return a[x]
	}()
	add(lab(r))
	_, isB := sh.(*selfB)
	if isB != (y%2 == 1) {
		add("wrong type")
	}
	var m uint8 = uint8(x)<<6 | uint8(y)
	add(lab(int(m), "-", int(int8(m)), "-", int(m>>1), "-", x/(y+1), "-", (x-3)%3))
	z := x
	if !(x < 2 || x > 4) || y == 2 && !(x == 0) {
		z = -x
	}
	add(lab(z))
	nd.Observe("out", out)
	nd.Reach("accepted")
}
