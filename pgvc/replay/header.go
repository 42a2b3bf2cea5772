package replay

import (
	"bytes"
	_ "embed"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net/netip"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"pgvc/gen"
)

//go:embed header.cc.txt
var hdrHarness string

// Header runs the compiled helpers of validate.h.
type Header struct{ bin string }

func NewHeader(e *gen.Env) (*Header, error) {
	d := filepath.Join(e.Dir, "hdrrun")
	os.MkdirAll(d, 0o755)
	src := filepath.Join(d, "main.cc")
	if err := os.WriteFile(src, []byte(hdrHarness), 0o644); err != nil {
		return nil, err
	}
	h := &Header{bin: filepath.Join(d, "main")}
	c := &gen.CC{Dir: d}
	// checked iterators and bounds make undefined behaviour visible
	if se, err := c.Clang(append(append([]string{}, gen.CCFlags...), "-O0", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I"+gen.Repo, src, "-o", h.bin, "-lprotobuf", "-lpthread")...); err != nil {
		return nil, fmt.Errorf("%v: %s", err, tail(se, 1500))
	}
	return h, nil
}

// HeaderCase is a call of a helper and what it has to yield.
type HeaderCase struct {
	Line, Want, Text string
}

func bit(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func isHost(s string) bool {
	if len(s) > 253 {
		return false
	}
	for _, l := range strings.Split(strings.TrimSuffix(s, "."), ".") {
		if len(l) < 1 || len(l) > 63 || l[0] == '-' || l[len(l)-1] == '-' {
			return false
		}
		for i := 0; i < len(l); i++ {
			c := l[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-') {
				return false
			}
		}
	}
	return true
}

func ipText(s string) int {
	a, err := netip.ParseAddr(s)
	switch {
	case err != nil || a.Zone() != "":
		return 0
	case strings.Contains(s, ":"):
		return 6
	}
	return 4
}

// words lists the strings of at most n letters.
func words(letters []string, n int) []string {
	out := []string{""}
	last := out
	for k := 0; k < n; k++ {
		var next []string
		for _, w := range last {
			for _, l := range letters {
				next = append(next, w+l)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// HeaderCases enumerates calls: all short strings over small alphabets, the
// edges of the length limits, addresses and their mutations.
func HeaderCases(seed int64, deep bool) (out []HeaderCase) {
	rng := rand.New(rand.NewSource(seed))
	hx := func(s string) string { return "x" + hex.EncodeToString([]byte(s)) }
	two := func(a, b string) {
		for fn, w := range map[string]bool{"IsPrefix": strings.HasPrefix(b, a), "IsSuffix": strings.HasSuffix(b, a), "Contains": strings.Contains(a, b), "NotContains": !strings.Contains(a, b)} {
			out = append(out, HeaderCase{fn + " " + hx(a) + " " + hx(b), bit(w), fmt.Sprintf("%s(%q, %q)", fn, a, b)})
		}
	}
	one := func(fn, a, want string) {
		t := fmt.Sprintf("%q", a)
		if len(a) > 80 {
			t = fmt.Sprintf("%q… (%d bytes)", a[:60], len(a))
		}
		out = append(out, HeaderCase{fn + " " + hx(a), want, fn + "(" + t + ")"})
	}
	d := 3
	if deep {
		d = 4
	}
	ws := words([]string{"a", "b", "\x00"}, d)
	for _, a := range ws {
		for _, b := range ws {
			two(a, b)
		}
	}
	letters := []string{"a", "b", "c", "\x00", "\xff", "é", "."}
	long := func(n int) string {
		var s strings.Builder
		for k := 0; k < n; k++ {
			s.WriteString(letters[rng.Intn(len(letters))])
		}
		return s.String()
	}
	for k := 0; k < 300; k++ {
		s := long(rng.Intn(40))
		i, j := rng.Intn(len(s)+1), rng.Intn(len(s)+1)
		if i > j {
			i, j = j, i
		}
		p := s[i:j]
		two(p, s)
		two(s, p)
		two(s[i:], s)
		two(s[:j], s)
		two(s, s+"a")
		two(s, s+s)
	}
	// hostnames
	host := func(s string) { one("IsHostname", s, bit(isHost(s))) }
	n := 4
	if deep {
		n = 5
	}
	for _, w := range words([]string{"a", "Z", "9", "-", ".", "_", "\x00", "\xc3"}, n) {
		host(w)
	}
	for c := 0; c < 256; c++ {
		for _, f := range []string{"%s", "a%s", "%sa", "a%sa", "a.%s", "%s.a", "a.b%sc.d"} {
			host(strings.Replace(f, "%s", string([]byte{byte(c)}), 1))
		}
	}
	rep := func(n int) string { return strings.Repeat("a", n) }
	for k := 61; k <= 66; k++ {
		for _, s := range []string{rep(k), rep(k) + ".", "b." + rep(k), rep(k) + ".b", "b." + rep(k) + ".c", rep(k) + "-", "-" + rep(k)} {
			host(s)
		}
	}
	for total := 248; total <= 260; total++ {
		s := strings.Repeat(rep(49)+".", 5) // 250
		for len(s) < total {
			s += "c"
		}
		host(s[:total])
		host(strings.TrimSuffix(s[:total-1], ".") + ".")
		host(rep(total))
	}
	host(strings.Repeat("a.", 126))
	host(strings.Repeat("a.", 127))
	// addresses
	addr := func(s string) {
		k := ipText(s)
		if strings.Contains(s, "\x00") {
			k = 0
		}
		one("IsIpv4", s, bit(k == 4))
		one("IsIpv6", s, bit(k == 6))
		one("IsIp", s, bit(k != 0))
	}
	base := []string{"", "1.2.3.4", "0.0.0.0", "255.255.255.255", "256.1.1.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.4 ", " 1.2.3.4", "1.2.3.4/8", "0x1.2.3.4", "::", "::1", "1::", "fe80::1", "fe80::1%eth0", "fe80::1%0", "2001:db8::ff00:42:8329", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::1:2:3:4:5:6:7", "1::2::3", "::ffff:1.2.3.4", "::1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "12345::", "g::", "[::1]", "::1\x00", "1.2.3.4\x00", "1.2.3.4\x00x", "\x00", "::\x00::", ":::", ":", "1:", ":1", "ABCD:EF01:2345:6789:ABCD:EF01:2345:6789"}
	for _, s := range base {
		addr(s)
	}
	m := 1500
	if deep {
		m = 20000
	}
	al := "0123456789abcdefABCDEFg.:%/ \x00-"
	for k := 0; k < m; k++ {
		b := []byte(base[rng.Intn(len(base))])
		for j := 0; j <= rng.Intn(3); j++ {
			switch i := rng.Intn(len(b) + 1); {
			case len(b) > 0 && i < len(b) && rng.Intn(2) == 0:
				b[i] = al[rng.Intn(len(al))]
			case len(b) > 0 && i < len(b) && rng.Intn(2) == 0:
				b = append(b[:i], b[i+1:]...)
			default:
				b = append(b[:i], append([]byte{al[rng.Intn(len(al))]}, b[i:]...)...)
			}
		}
		addr(string(b))
	}
	// code points
	runes := []string{"a", "\x00", "é", "漢", "😀", "\u07ff", "\uffff", "\U0010ffff", "\x7f"}
	for _, w := range words(runes, 3) {
		one("Utf8Len", w, fmt.Sprint(utf8.RuneCountInString(w)))
	}
	for k := 0; k < 200; k++ {
		var s strings.Builder
		for j := rng.Intn(60); j >= 0; j-- {
			s.WriteString(runes[rng.Intn(len(runes))])
		}
		one("Utf8Len", s.String(), fmt.Sprint(utf8.RuneCountInString(s.String())))
	}
	one("Utf8Len", strings.Repeat("😀", 300), "300")
	one("Utf8Len", strings.Repeat("a", 70000), "70000")
	// the registry: all short histories
	for _, w := range words([]string{"+P ", "-P ", "+Q ", "-Q ", "?P ", "?Q "}, 4) {
		if !strings.HasSuffix(w, "?P ") && !strings.HasSuffix(w, "?Q ") || len(w) > 9 && !deep && rng.Intn(3) > 0 {
			continue
		}
		reg := map[byte]byte{}
		want := ""
		for _, s := range strings.Fields(w) {
			switch {
			case s[0] != '?':
				reg[s[1]] = s[0]
			case reg[s[1]] == 0:
				want += "1-,"
			case reg[s[1]] == '+':
				want += "1" + s[1:] + "7,"
			default:
				want += "0" + s[1:] + "7,"
			}
		}
		out = append(out, HeaderCase{"history " + strings.TrimSpace(w), want, "CheckMessage after " + strings.TrimSpace(w)})
	}
	return
}

// Run calls the helpers; a case whose process ends or stalls yields what
// happened.
func (h *Header) Run(cs []HeaderCase) ([]string, error) {
	var out []string
	for died := 0; len(out) < len(cs) && died < 4; {
		var in strings.Builder
		for _, c := range cs[len(out):] {
			in.WriteString(c.Line + "\n")
		}
		cmd := exec.Command("timeout", "-k", "5", "120", h.bin)
		cmd.Env = append(os.Environ(), "ASAN_OPTIONS=detect_leaks=0")
		cmd.Stdin = strings.NewReader(in.String())
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		ls := strings.Split(so.String(), "\n")
		out = append(out, ls[:len(ls)-1]...)
		if err != nil && len(out) < len(cs) {
			died++
			out = append(out, "the process ended: "+err.Error()+": "+tail(se.String(), 300))
		} else if err == nil && len(out) < len(cs) {
			return out, fmt.Errorf("%d answers for %d calls", len(out), len(cs))
		}
	}
	return out, nil
}
