package schemagen

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"aqwari.net/xml/xsd"
)

// GoType is the Go type documented for values of a built-in.
func GoType(b xsd.Builtin) string {
	switch b {
	case xsd.Boolean:
		return "bool"
	case xsd.Float:
		return "float32"
	case xsd.Double, xsd.Decimal:
		return "float64"
	case xsd.Long:
		return "int64"
	case xsd.UnsignedLong:
		return "uint64"
	case xsd.UnsignedInt, xsd.UnsignedShort:
		return "uint"
	case xsd.Int, xsd.Integer, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.PositiveInteger, xsd.Short:
		return "int"
	case xsd.Byte:
		return "signed"
	case xsd.UnsignedByte:
		return "unsigned"
	case xsd.Base64Binary, xsd.HexBinary:
		return "[]byte"
	case xsd.Date, xsd.Time, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth:
		return "time.Time"
	case xsd.NMTOKENS, xsd.IDREFS, xsd.ENTITIES:
		return "[]string"
	}
	return "string"
}

// IsListBuiltin tells if a built-in is a list of names.
func IsListBuiltin(b xsd.Builtin) bool { return GoType(b) == "[]string" }

var timeLayouts = map[xsd.Builtin]string{
	xsd.Date:       "2006-01-02",
	xsd.DateTime:   "2006-01-02T15:04:05.999999999",
	xsd.GDay:       "---02",
	xsd.GMonth:     "--01",
	xsd.GMonthDay:  "--01-02",
	xsd.GYear:      "2006",
	xsd.GYearMonth: "2006-01",
	xsd.Time:       "15:04:05.999999999",
}

const nameStart = "abcdefgXYZ_"
const nameChars = "abcdefgXYZ019_-."

func ncname(r *rand.Rand) string {
	b := []byte{nameStart[r.Intn(len(nameStart))]}
	for k := r.Intn(8); k > 0; k-- {
		b = append(b, nameChars[r.Intn(len(nameChars))])
	}
	return string(b)
}

var texts = []string{"plain", "two words", "a<b&c>d", `"quoted" 'text'`, "Ünïcode ✓ 日本", "x", "]]>", "1", "true", "-", "a\tb", "line\nbreak", "🎉", "&amp;", "trailing.", strings.Repeat("long ", 30) + "end"}

// Lexical makes a valid lexical form of a built-in, never the zero value of the
// Go type that it is mapped to, nor white space at either end unless pad is set.
func Lexical(r *rand.Rand, b xsd.Builtin, pad bool) string {
	s := lexical(r, b)
	if pad && r.Intn(100) < 12 {
		switch b {
		case xsd.String, xsd.NormalizedString, xsd.AnyType, xsd.AnySimpleType, xsd.XMLLang, xsd.XMLBase, xsd.XMLSpace, xsd.XMLId:
		default:
			if GoType(b) != "string" {
				ws := []string{" ", "\n", "\t ", "  "}
				s = ws[r.Intn(len(ws))] + s + ws[r.Intn(len(ws))]
			}
		}
	}
	return s
}

func zone(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return ""
	case 1, 2:
		return "Z"
	}
	m := r.Intn(14*60-1) + 1
	return fmt.Sprintf("%c%02d:%02d", "+-"[r.Intn(2)], m/60, m%60)
}

func lexical(r *rand.Rand, b xsd.Builtin) string {
	integer := func(lo, hi int64) string {
		for {
			var n int64
			switch r.Intn(4) {
			case 0:
				n = lo
			case 1:
				n = hi
			case 2:
				n = int64(r.Intn(2000) - 1000)
			default:
				if span := uint64(hi) - uint64(lo); span+1 == 0 {
					n = int64(r.Uint64())
				} else {
					n = lo + int64(r.Uint64()%(span+1))
				}
			}
			if n < lo || n > hi || n == 0 {
				continue
			}
			s := strconv.FormatInt(n, 10)
			switch r.Intn(12) {
			case 0:
				if n > 0 {
					s = "+" + s
				}
			case 1:
				if n > 0 {
					s = "00" + s
				}
			}
			return s
		}
	}
	unsigned := func(hi uint64) string {
		for {
			n := r.Uint64()
			switch r.Intn(4) {
			case 0:
				n = hi
			case 1:
				n %= 1000
			}
			if n <= hi && n != 0 {
				s := strconv.FormatUint(n, 10)
				if r.Intn(12) == 0 {
					s = "0" + s
				}
				return s
			}
			if n > hi && n%(hi+1) != 0 {
				return strconv.FormatUint(n%(hi+1), 10)
			}
		}
	}
	switch b {
	case xsd.Boolean:
		return []string{"true", "1"}[r.Intn(2)]
	case xsd.Byte:
		return integer(-128, 127)
	case xsd.Short:
		return integer(-32768, 32767)
	case xsd.Int:
		return integer(math.MinInt32, math.MaxInt32)
	case xsd.Integer, xsd.Long:
		return integer(math.MinInt64, math.MaxInt64)
	case xsd.NonNegativeInteger, xsd.PositiveInteger:
		return integer(1, math.MaxInt64)
	case xsd.NonPositiveInteger, xsd.NegativeInteger:
		return integer(math.MinInt64, -1)
	case xsd.UnsignedByte:
		return unsigned(255)
	case xsd.UnsignedShort:
		return unsigned(65535)
	case xsd.UnsignedInt:
		return unsigned(math.MaxUint32)
	case xsd.UnsignedLong:
		return unsigned(math.MaxUint64)
	case xsd.Decimal:
		s := strconv.FormatFloat(math.Round(r.NormFloat64()*1e5)/1e3, 'f', -1, 64)
		if s == "0" || s == "-0" {
			return "0.125"
		}
		return s
	case xsd.Float:
		if r.Intn(12) == 0 {
			return []string{"1.5E3", "-2e-3", "1E10", "3.4028235E38", "1e-45", "NaN"}[r.Intn(6)]
		}
		return strconv.FormatFloat(float64(float32(r.NormFloat64()*100+0.001)), 'g', -1, 32)
	case xsd.Double:
		if r.Intn(12) == 0 {
			return []string{"1.5E300", "-2e-300", "12E10", "1.7976931348623157E308", "5e-324", "NaN"}[r.Intn(6)]
		}
		return strconv.FormatFloat(r.NormFloat64()*1000+0.0001, 'g', -1, 64)
	case xsd.Date, xsd.Time, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth:
		year := 1 + r.Intn(9999)
		if r.Intn(3) > 0 {
			year = 1900 + r.Intn(200)
		}
		if year == 1 && (b == xsd.GYear || b == xsd.GYearMonth) {
			year = 2 // not the zero value
		}
		t := time.Date(year, time.Month(1+r.Intn(12)), 2+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
		if r.Intn(8) == 0 {
			t = time.Date(2020, 2, 29, 23, 59, 59, 0, time.UTC)
		}
		switch r.Intn(3) {
		case 0:
			t = t.Add(time.Duration(r.Intn(1e9)))
		case 1:
			t = t.Add(time.Duration(r.Intn(1000)) * time.Millisecond)
		}
		return t.Format(timeLayouts[b]) + zone(r)
	case xsd.Base64Binary:
		buf := make([]byte, 1+r.Intn(80))
		r.Read(buf)
		s := base64.StdEncoding.EncodeToString(buf)
		switch r.Intn(8) {
		case 0:
			// Lines
			var out []string
			for len(s) > 20 {
				out = append(out, s[:20])
				s = s[20:]
			}
			s = strings.Join(append(out, s), []string{"\n", " ", "\n\t  "}[r.Intn(3)])
		}
		return s
	case xsd.HexBinary:
		buf := make([]byte, 1+r.Intn(40))
		r.Read(buf)
		s := hex.EncodeToString(buf)
		if r.Intn(2) == 0 {
			s = strings.ToUpper(s)
		}
		return s
	case xsd.NMTOKENS, xsd.IDREFS, xsd.ENTITIES:
		var l []string
		for k := 1 + r.Intn(4); k > 0; k-- {
			l = append(l, ncname(r))
		}
		return strings.Join(l, " ")
	case xsd.NCName, xsd.ID, xsd.IDREF, xsd.ENTITY, xsd.Name, xsd.NMTOKEN, xsd.QName, xsd.NOTATION, xsd.XMLId:
		return ncname(r)
	case xsd.XMLLang, xsd.Language:
		return []string{"en", "de-CH", "x-test"}[r.Intn(3)]
	case xsd.XMLSpace:
		return []string{"preserve", "default"}[r.Intn(2)]
	case xsd.AnyURI, xsd.XMLBase:
		return []string{"http://example.org/a?b=c&d=e", "urn:x:y", "rel/path#frag", "http://ünï.example/"}[r.Intn(4)]
	case xsd.Duration:
		return []string{"P1Y2M3DT4H5M6.7S", "-P30D", "PT0.5S"}[r.Intn(3)]
	case xsd.Token, xsd.NormalizedString:
		s := texts[r.Intn(len(texts))]
		return strings.Join(strings.Fields(s), " ")
	}
	return texts[r.Intn(len(texts))]
}

// ZeroLexical makes a lexical form of the zero value of the Go type that a
// simple type is mapped to, if it has one.
func ZeroLexical(r *rand.Rand, ref Ref) (string, bool) {
	b, list, union := Primitive(ref)
	if union || list || IsListBuiltin(b) {
		return "", !union
	}
	switch GoType(b) {
	case "bool":
		return []string{"false", "0"}[r.Intn(2)], true
	case "float32", "float64":
		return []string{"0", "0.0"}[r.Intn(2)], true
	case "time.Time":
		return "", false
	case "string", "[]byte":
		return "", true
	}
	return []string{"0", "00"}[r.Intn(2)], true
}

// ListText joins items for use in a list.
func ListText(r *rand.Rand, b xsd.Builtin) string {
	var l []string
	k := 1 + r.Intn(5)
	if r.Intn(80) == 0 {
		k = 10 + r.Intn(200)
	}
	for ; k > 0; k-- {
		s := strings.Join(strings.Fields(lexical(r, b)), "")
		if s == "" {
			s = "x"
		}
		l = append(l, s)
	}
	sep := []string{" ", "  ", "\n", "\t"}
	out := l[0]
	for _, s := range l[1:] {
		out += sep[r.Intn(len(sep))] + s
	}
	return out
}

// Value is the value that a lexical form denotes, in a canonical form. The Go
// types keep no difference between a missing time zone and UTC.
func Value(b xsd.Builtin, list bool, s string) (string, error) {
	if list || IsListBuiltin(b) {
		if IsListBuiltin(b) {
			b = xsd.NMTOKEN
		}
		var out []string
		for _, f := range strings.Fields(s) {
			v, err := Value(b, false, f)
			if err != nil {
				return "", err
			}
			out = append(out, v)
		}
		return fmt.Sprintf("%q", out), nil
	}
	t := strings.TrimSpace(s)
	switch GoType(b) {
	case "bool":
		switch t {
		case "1", "true":
			return "true", nil
		case "0", "false":
			return "false", nil
		}
		return "", fmt.Errorf("invalid boolean %q", s)
	case "int", "int64", "signed":
		n, err := strconv.ParseInt(t, 10, 64)
		return strconv.FormatInt(n, 10), err
	case "uint", "uint64", "unsigned":
		n, err := strconv.ParseUint(strings.TrimPrefix(t, "+"), 10, 64)
		return strconv.FormatUint(n, 10), err
	case "float32":
		if t != "NaN" && strings.Contains(strings.ToLower(t), "n") {
			return "", fmt.Errorf("invalid float %q", s)
		}
		f, err := strconv.ParseFloat(t, 32)
		return strconv.FormatFloat(f, 'g', -1, 32), err
	case "float64":
		if t != "NaN" && strings.Contains(strings.ToLower(t), "n") {
			return "", fmt.Errorf("invalid number %q", s)
		}
		if b == xsd.Decimal && strings.ContainsAny(t, "eE") {
			return "", fmt.Errorf("invalid decimal %q", s)
		}
		f, err := strconv.ParseFloat(t, 64)
		return strconv.FormatFloat(f, 'g', -1, 64), err
	case "[]byte":
		t = strings.Join(strings.Fields(t), "")
		var buf []byte
		var err error
		if b == xsd.HexBinary {
			buf, err = hex.DecodeString(t)
		} else {
			buf, err = base64.StdEncoding.DecodeString(t)
		}
		return hex.EncodeToString(buf), err
	case "time.Time":
		v, err := time.Parse(timeLayouts[b], t)
		if err != nil {
			v, err = time.Parse(timeLayouts[b]+"Z07:00", t)
		}
		_, off := v.Zone()
		return fmt.Sprint(v.UTC().Format(time.RFC3339Nano), " ", off), err
	}
	return s, nil
}
