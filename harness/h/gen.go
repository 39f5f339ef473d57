package h

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"strings"
	"time"
)

// NewRand returns a generator determined by its coordinates only.
func NewRand(seed uint64, parts ...uint64) *rand.Rand {
	x := seed*0x9E3779B97F4A7C15 + 0x1234567
	for _, p := range parts {
		x ^= p + 0x9E3779B97F4A7C15 + (x << 6) + (x >> 2)
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 29
	}
	return rand.New(rand.NewPCG(x, x^0xDEADBEEFCAFEF00D))
}

// Pick returns a random element.
func Pick[T any](r *rand.Rand, v []T) T { return v[r.IntN(len(v))] }

// W is a weighted choice.
type W struct {
	K string
	N int
}

// PickW makes a weighted choice.
func PickW(r *rand.Rand, ws []W) string {
	t := 0
	for _, w := range ws {
		t += w.N
	}
	n := r.IntN(t)
	for _, w := range ws {
		if n < w.N {
			return w.K
		}
		n -= w.N
	}
	panic("unreachable")
}

var plainNames = []string{"a", "b", "test", "topic", "id", "foo", "queue-1", "task_42", "x.y"}

// clusters of names that are easily confused with each other.
var nameClusters = [][]string{
	{"a", "aa", "ab", "aaa", "b", "A", "a ", " a"},
	{"a", "a\x00", "a\x00b", "a\x00\x00", "a\x01", "a\x01\x01", "a\x01\x02", "a\x02", "\x00", "\x01", "\x00a", "a\xc2\x80", "a\x7f"},
	{"a/b", "a", "b", "a%2Fb", "a%2fb", "a/", "/a", "/", "//", "a//b", "a%", "%", "%25", "a%252Fb", "%2F"},
	{"tasks", "promises", "topics", "v1", "metrics", "livez", "null", "0", "true", "{}", "[]", "undefined", "nil"},
	{"é", "e\u0301", "E", "ß", "ss", "日本語", "日本", "日", "\U0001F600", "\U0010FFFF", "\uFFFD", "\u2028", "ÿ"},
	{".", "..", "...", "./", "../", "a/../b", "a/./b", "./a", ".a"},
	{"a?b", "a#b", "a&b", "a=b", "a;b", "a:b", "a@b", "a\\b", "a\"b", "a'b", "a<b>", "a|b", "a^b", "a`b", "a{b}", "a*b", "*", ":id", ":topic", "*filepath", "a,b", "a$b", "a!b", "a~b", "a(b)"},
	{"1", "10", "01", "2", "100", "-1", "1.0", "1e3", "9007199254740993"},
	{"\n", "\r\n", "\t", "a\nb", " ", "  ", "a b", "a  b", "\u00a0", "\u200b"},
}

// Names returns n distinct names drawn from one or two confusable clusters.
func Names(r *rand.Rand, n int, plain bool) []string {
	var pool []string
	if plain {
		pool = append(pool, plainNames...)
	} else {
		pool = append(pool, Pick(r, nameClusters)...)
		if r.IntN(2) == 0 {
			pool = append(pool, Pick(r, nameClusters)...)
		}
		if r.IntN(8) == 0 {
			n := 200 + r.IntN(600)
			if r.IntN(3) == 0 {
				n += r.IntN(6000)
			}
			l := strings.Repeat("x", n)
			pool = append(pool, l, l+"y", l[:len(l)-1])
		}
	}
	for i := 0; len(pool) < n*2; i++ {
		pool = append(pool, fmt.Sprintf("n%d", i))
	}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	seen := map[string]bool{}
	var out []string
	for _, s := range pool {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
		if len(out) == n {
			return out
		}
	}
	for i := 0; len(out) < n; i++ {
		out = append(out, fmt.Sprintf("m%d", i))
	}
	return out
}

// AnyString generates a free-form valid UTF-8 string.
func AnyString(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return Pick(r, plainNames)
	case 1:
		return ""
	case 2:
		return Pick(r, Pick(r, nameClusters))
	case 3:
		n := 1 + r.IntN(300)
		if r.IntN(12) == 0 {
			n += r.IntN(5000)
		}
		return strings.Repeat(Pick(r, []string{"z", "é", "\x00", "\"", "<"}), n)
	default:
		var sb strings.Builder
		for i, n := 0, r.IntN(12); i < n; i++ {
			switch r.IntN(4) {
			case 0:
				sb.WriteRune(rune(r.IntN(128)))
			case 1:
				sb.WriteRune(rune(0xA0 + r.IntN(0x500)))
			case 2:
				sb.WriteRune(rune(0x4E00 + r.IntN(0x2000)))
			default:
				sb.WriteRune(rune(0x1F300 + r.IntN(0x200)))
			}
		}
		return sb.String()
	}
}

// JSONValue generates a JSON value (as decoded by encoding/json into any).
func JSONValue(r *rand.Rand, depth int) any {
	k := r.IntN(9)
	if depth <= 0 && k >= 7 {
		k = r.IntN(7)
	}
	switch k {
	case 0:
		return r.IntN(2) == 0
	case 1:
		return float64(r.IntN(2000) - 1000)
	case 2:
		return Pick(r, []float64{0, 1, -1, 0.1, -0.5, 1e21, 1e-7, 1e300, -1e300, 5e-324, 9007199254740991, -9007199254740991, 2147483648, 4294967296, 3.141592653589793, 1<<40 + 1})
	case 3, 4:
		return AnyString(r)
	case 5:
		if depth > 2 {
			return map[string]any{}
		}
		return nil
	case 6:
		return Pick(r, []any{"", 0.0, false, []any{}, map[string]any{}, true, "0", "null", []any{nil}, map[string]any{"a": nil}, []any{[]any{}}, map[string]any{"": ""}})
	case 7:
		v := make([]any, 0)
		for i, n := 0, r.IntN(5); i < n; i++ {
			v = append(v, JSONValue(r, depth-1))
		}
		return v
	default:
		v := map[string]any{}
		for i, n := 0, r.IntN(5); i < n; i++ {
			k := AnyString(r)
			if r.IntN(3) == 0 {
				k = Pick(r, []string{"_id", "topic", "state", "nonce", "payload", "Payload", "a.b", "0", "a"})
			}
			v[k] = JSONValue(r, depth-1)
		}
		return v
	}
}

// Deep generates a deeply nested JSON value.
func Deep(r *rand.Rand, n int) any {
	var v any = "leaf"
	for i := 0; i < n; i++ {
		if r.IntN(2) == 0 {
			v = []any{v}
		} else {
			v = map[string]any{"k": v}
		}
	}
	return v
}

// TS describes a timestamp relative to the moment it is used, or absolute.
type TS struct {
	Rel  bool   `json:"rel,omitempty"`
	Ns   int64  `json:"ns,omitempty"`
	Abs  string `json:"abs,omitempty"`
	Zone int    `json:"zone,omitempty"` // minutes east of UTC
}

// Resolve renders the timestamp as RFC 3339.
func (t *TS) Resolve(now time.Time) string {
	if !t.Rel {
		return t.Abs
	}
	return now.Add(time.Duration(t.Ns)).In(time.FixedZone("", t.Zone*60)).Format(time.RFC3339Nano)
}

var zones = []int{0, 0, 0, 0, 480, -300, 345, -1, 1, 840, -720, -210, 1439, -1439}

var relSmall = []int64{0, 0, 0, 1, -1, 1000, -1000, 999_999, -999_999, 1_000_000, -1_000_000, 1_000_001, 500_000, -500_000}
var relBig = []time.Duration{time.Second, 10 * time.Second, time.Minute, time.Hour, 72 * time.Hour, 24 * 365 * time.Hour, 24 * 365 * 40 * time.Hour, 24 * 365 * 100 * time.Hour}

// Abs timestamps around representation boundaries.
var absTimes = []string{
	"0001-01-01T00:00:00Z", "0001-01-01T00:00:00.000000001Z", "1969-12-31T23:59:59.999Z", "1970-01-01T00:00:00Z", "1970-01-01T00:00:00.001Z",
	"1969-12-31T23:59:59.999999999Z", "1901-12-13T20:45:51Z", "2038-01-19T03:14:08Z", "9999-12-31T23:59:59.999Z", "1999-12-31T23:59:59.999999999Z",
	"1970-01-01T08:00:00+08:00", "1969-12-31T23:00:00-01:00", "2262-04-11T23:47:17Z", "1677-09-21T00:12:43Z", "0000-12-31T12:00:00Z", "1900-01-01T00:00:00+14:00",
}

// GenTS generates a timestamp; coarse ones are whole milliseconds apart.
func GenTS(r *rand.Rand) *TS {
	switch r.IntN(10) {
	case 0:
		return &TS{Abs: Pick(r, absTimes)}
	case 1, 2, 3:
		return &TS{Rel: true, Ns: Pick(r, relSmall), Zone: Pick(r, zones)}
	case 4, 5:
		d := int64(Pick(r, relBig))
		if r.IntN(2) == 0 {
			d = -d
		}
		return &TS{Rel: true, Ns: d + Pick(r, relSmall), Zone: Pick(r, zones)}
	default:
		return &TS{Rel: true, Ns: (r.Int64N(20_000) - 10_000) * 1_000_000, Zone: Pick(r, zones)}
	}
}

// Durations used for delays and timeouts.
var goodDurations = []string{"10m", "1h30m", "-5s", "0", "0s", "1ns", "1.5h", "100ms", "2s", "5s", "1us", "-1h", "72h", "1000h", "250ms", "1ms", "876000h"}
var badDurations = []string{"foo", "10", "1d", " ", "1h ", "h", "--1s", "1,5h", "∞", "10 m", "1e3s", "0x1s", "9999999999h"}

// Norm normalizes a value through JSON, as any client would see it.
func Norm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var x any
	if err := json.Unmarshal(b, &x); err != nil {
		panic(err)
	}
	return x
}
