package main

import (
	"math"
	"strings"
)

var hostile = []string{
	"", " ", "  ", "null", "Null", "~", "true", "True", "false", "yes", "no", "on", "off", "y", "n", "Y", "NO",
	"0", "1", "-1", "+1", "007", "0o7", "0x1F", "0b11", "1_000", "1e3", "1.5", "1.", ".5", "-.5", "+.5", ".inf", "-.INF", "+.Inf", ".nan", ".NaN", "1e400",
	"9223372036854775807", "9223372036854775808", "99999999999999999999", "12:30:45", "190:20:30", "2020-01-01", "2020-01-01T00:00:00Z", "2001-12-14 21:59:43.10 -5",
	"<<", "=", "- a", "-", "--", "---", "--- a", "...", "... x", "a: b", "a:", ":a", ":", ": a", "a #b", "a#b", "#c", "# c", "&a", "*a", "*", "&", "!t", "!", "!!int", "!yisp", "!quote", "|", "|-", ">", "> x", "%d", "%", "%YAML 1.2", "@x", "`x`", "{", "}", "{a: b}", "[", "]", "[a]", ",", ", a", "?", "? a", "?a",
	"a\nb", "a\n", "a\n\n", "\na", "\n", "\n\n", "a\n\nb", "a\n b\n", " a\nb", "  a\n  b\n", "a\n  \nb", "a \nb ", "\ta\nb", "a\tb", "\t", "tab\t", " lead", "trail ", "trail  ", "a  b", "a\n---\nb", "a\n...\n", "a\n# c\nb", "# c\n", "a: b\nc: d\n", "- a\n- b\n",
	"é", "日本語", "😀", "e\u0301", "ü: ö", "ǆ", "ǅ", "Ǆ", "ﬁ", "ß", "ẞ", "İ", "ıI", "ſ", "ςΣ", "ŉ", "ⱥȾ", "\u3000x\u3000", "\u1680", "ᾳ", "Ⅳⅳ", "Ⓐⓐ", "\u2028", "a\u2028b", "\u2029x", "\u0085", "a\u0085b", "\u00a0", "\ufeff", "a\ufeffb", "\x01", "\x07", "\x1b[0m", "\x7f", "\u200b",
	"\\", "\\n", "\"", "\"a\"", "'", "''", "'a'", "it's", "say \"hi\"", "\\\"", "a\\", "\r", "a\rb", "a\r\nb", "\r\n",
	"λx", "(type)", "(symbol)", "$schema", "apiVersion", "a.b", "a?", "a.b?", "..", "./x", "/", "~/x", "x/y", "a,b", "a, b", "a ]", "[a, b", "key", "name",
}

var words = []string{"a", "b", "c", "foo", "bar", "baz", "alpha", "beta", "x1", "value", "nginx", "hello world", "web-0", "img:1.2", "café"}

func genStr(c *C) string {
	switch c.Intn(21) / 2 {
	case 0, 1, 2, 3:
		return pick(c, words)
	case 4, 5, 6:
		return pick(c, hostile)
	case 7: // long text that has to be wrapped
		var b strings.Builder
		for n := 10 + c.Intn(30); n > 0; n-- {
			b.WriteString(pick(c, words))
			b.WriteString(pick(c, []string{" ", " ", " ", "  ", ", ", ": ", "\n", " #"}))
		}
		return b.String()
	case 8:
		return pick(c, hostile) + pick(c, hostile)
	case 10: // lines with blanks around them
		var b strings.Builder
		for n := 2 + c.Intn(5); n > 0; n-- {
			b.WriteString(pick(c, []string{"", "", "", " ", "  ", "\t", " \t"}))
			b.WriteString(pick(c, []string{"", "", pick(c, words), pick(c, words), pick(c, words), pick(c, words), pick(c, hostile)}))
			b.WriteString(pick(c, []string{"", "", "", "", " ", "\t"}))
			b.WriteString(pick(c, []string{"\n", "\n", "\n", "\n", "\n\n", ""}))
		}
		return b.String()
	}
	alphabet := []rune("ab1_+$;()<>/^ \n\t'\"\\:#-,[]{}&*!|>%@`?~=.éǆßİſΣς日\u3000\u0085\u00a0\u2028😀")
	var b strings.Builder
	for n := c.Intn(9); n > 0; n-- {
		b.WriteRune(pick(c, alphabet))
	}
	return b.String()
}

func genInt(c *C) int64 {
	switch c.Intn(8) {
	case 0:
		return pick(c, []int64{0, 1, -1, 7, 8, 10, 255, 256, -128, 1 << 31, 1<<31 - 1, -(1 << 31), 1 << 32, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1})
	case 1:
		return int64(c.R.Uint64())
	case 2:
		return int64(c.R.Uint64() >> (1 + c.Intn(62)))
	}
	return int64(c.Intn(41) - 12)
}

func genFloat(c *C) float64 {
	switch c.Intn(6) {
	case 0:
		return pick(c, []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e21, 1e20, 1e-7, 123456789.0, 1e100, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 1 << 53, 1<<53 + 2, 9.223372036854775807e18, -9.223372036854775808e18, 0.30000000000000004})
	case 1:
		return math.Float64frombits(c.R.Uint64() &^ (1 << 62))
	case 2:
		return float64(c.Intn(200)-100) / 8
	}
	return float64(c.Intn(2000)-1000) / 100
}

type genOpt struct {
	depth    int
	width    int
	nan      bool // allow not-a-number
	nonstr   bool // allow keys that are not strings
	manifest bool // allow apiVersion, kind and $schema keys
	lists    bool // no maps
	plain    bool // tame strings only
}

func genScalar(c *C, o genOpt) *Val {
	switch c.Intn(11) {
	case 0:
		return null()
	case 1:
		return boolean(c.Chance(0.5))
	case 2, 3:
		return integer(genInt(c))
	case 4:
		if o.nan && c.Chance(0.1) {
			return float(math.NaN())
		}
		return float(genFloat(c))
	}
	if o.plain {
		return str(pick(c, words))
	}
	return str(genStr(c))
}

func genKey(c *C, o genOpt) *Val {
	for {
		var k *Val
		if o.nonstr && c.Chance(0.15) {
			switch c.Intn(4) {
			case 0:
				k = integer(int64(c.Intn(30) - 5))
			case 1:
				k = boolean(c.Chance(0.5))
			case 2:
				k = null()
			case 3:
				k = float(float64(c.Intn(40))/4 + 0.125)
			}
		} else if o.plain || c.Chance(0.6) {
			k = str(pick(c, words) + pick(c, []string{"", "", "1", "2"}))
		} else {
			k = str(genStr(c))
		}
		if k.K == vStr && (k.S == "<<" || !o.manifest && (k.S == "$schema" || k.S == "apiVersion" || k.S == "kind")) {
			continue
		}
		return k
	}
}

func genVal(c *C, o genOpt) *Val {
	if o.width == 0 {
		o.width = 4
	}
	if o.depth <= 0 || c.Chance(0.3) {
		return genScalar(c, o)
	}
	o.depth--
	if o.lists || c.Chance(0.45) {
		v := list()
		for n := c.Intn(o.width + 1); n > 0; n-- {
			v.L = append(v.L, genVal(c, o))
		}
		return v
	}
	return genMap(c, o)
}

func genMap(c *C, o genOpt) *Val {
	if o.width == 0 {
		o.width = 4
	}
	v := mapv()
	for n := c.Intn(o.width + 1); n > 0; n-- {
		k := genKey(c, o)
		dup := false
		for _, e := range v.M {
			// keys whose text is the same are one key to yisp
			if keyText(e.K) == keyText(k) {
				dup = true
			}
		}
		if !dup {
			v.M = append(v.M, Ent{k, genVal(c, o)})
		}
	}
	return v
}

func keyText(k *Val) string {
	switch k.K {
	case vStr:
		return k.S
	case vNull:
		return "null"
	case vFloat:
		return tameFloat(k.F)
	}
	return k.String()
}
