package lib

import (
	"bytes"
	"encoding/json"
	"math"
	"reflect"
	"strings"
	"time"

	"verif/harness/eng"
)

// Types of the universe the checks send over the wire.

type Color string

type Inner struct {
	A int     `json:"a"`
	B string  `json:"b"`
	F float64 `json:"f,omitempty"`
}

type Deep struct {
	ID      int64             `json:"id"`
	Name    string            `json:"name"`
	Data    []byte            `json:"data"`
	Tags    []string          `json:"tags"`
	In      Inner             `json:"inner"`
	Ptr     *Inner            `json:"ptr"`
	M       map[string]int    `json:"m"`
	L       []Inner           `json:"list"`
	Opt     *string           `json:"opt,omitempty"`
	Nested  map[string]*Inner `json:"nested"`
	Flag    bool
	Ignored string `json:"-"`
	U       uint64 `json:"u"`
	When    time.Time
}

// AnyT marks the type interface{}.
type AnyT = any

// TypeNames lists the type universe. GoTypes maps them to types.
var TypeNames = []string{
	"Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64",
	"Float32", "Float64", "String", "Bytes", "Color", "Time", "Inner", "Deep", "PInner", "PInt",
	"Ints", "Strings", "Floats", "Bools", "Inners", "BytesList", "Array3", "MapSI", "MapSS", "MapIS", "MapSD", "MapSL", "Any", "Anys", "MapSA",
}

var GoTypes = map[string]reflect.Type{
	"Bool": reflect.TypeFor[bool](), "Int": reflect.TypeFor[int](), "Int8": reflect.TypeFor[int8](), "Int16": reflect.TypeFor[int16](),
	"Int32": reflect.TypeFor[int32](), "Int64": reflect.TypeFor[int64](), "Uint": reflect.TypeFor[uint](), "Uint8": reflect.TypeFor[uint8](),
	"Uint16": reflect.TypeFor[uint16](), "Uint32": reflect.TypeFor[uint32](), "Uint64": reflect.TypeFor[uint64](),
	"Float32": reflect.TypeFor[float32](), "Float64": reflect.TypeFor[float64](), "String": reflect.TypeFor[string](),
	"Bytes": reflect.TypeFor[[]byte](), "Color": reflect.TypeFor[Color](), "Time": reflect.TypeFor[time.Time](),
	"Inner": reflect.TypeFor[Inner](), "Deep": reflect.TypeFor[Deep](), "PInner": reflect.TypeFor[*Inner](), "PInt": reflect.TypeFor[*int](),
	"Ints": reflect.TypeFor[[]int](), "Strings": reflect.TypeFor[[]string](), "Floats": reflect.TypeFor[[]float64](), "Bools": reflect.TypeFor[[]bool](),
	"Inners": reflect.TypeFor[[]Inner](), "BytesList": reflect.TypeFor[[][]byte](), "Array3": reflect.TypeFor[[3]int](),
	"MapSI": reflect.TypeFor[map[string]int](), "MapSS": reflect.TypeFor[map[string]string](), "MapIS": reflect.TypeFor[map[int]string](),
	"MapSD": reflect.TypeFor[map[string]Deep](), "MapSL": reflect.TypeFor[map[string][]string](),
	"Any": reflect.TypeFor[any](), "Anys": reflect.TypeFor[[]any](), "MapSA": reflect.TypeFor[map[string]any](),
}

// TV is a typed value in a scenario.
type TV struct {
	T string
	V json.RawMessage
}

// Gen generates a value of the named type. size bounds strings and collections.
func GenTV(r *eng.R, name string, size int) TV {
	v := genValue(r, GoTypes[name], size, 0)
	b, err := json.Marshal(v.Interface())
	if err != nil {
		panic(err)
	}
	return TV{name, b}
}

// Value returns the Go value. ok is false when the shrinker made something which is no value of the type.
func (t TV) Value() (v reflect.Value, ok bool) {
	typ := GoTypes[t.T]
	if typ == nil {
		return v, false
	}
	p := reflect.New(typ)
	d := json.NewDecoder(bytes.NewReader(t.V))
	d.UseNumber()
	if err := d.Decode(p.Interface()); err != nil {
		return v, false
	}
	fixNumbers(p.Elem())
	return p.Elem(), true
}

// fixNumbers replaces json.Number in interfaces by int64 or float64.
func fixNumbers(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			v.Set(reflect.ValueOf(fixAny(v.Interface())))
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Interface {
			for i := 0; i < v.Len(); i++ {
				fixNumbers(v.Index(i))
			}
		}
	case reflect.Map:
		if v.Type().Elem().Kind() == reflect.Interface {
			for _, k := range v.MapKeys() {
				if e := v.MapIndex(k); !e.IsNil() {
					v.SetMapIndex(k, reflect.ValueOf(fixAny(e.Interface())))
				}
			}
		}
	}
}

func fixAny(x any) any {
	switch y := x.(type) {
	case json.Number:
		if i, err := y.Int64(); err == nil {
			return i
		}
		f, _ := y.Float64()
		return f
	case []any:
		for i := range y {
			if y[i] != nil {
				y[i] = fixAny(y[i])
			}
		}
	case map[string]any:
		for k := range y {
			if y[k] != nil {
				y[k] = fixAny(y[k])
			}
		}
	}
	return x
}

var stringPool = []string{"", "a", "A", "hello", "\u0000", "\u001e", "a\u001eb", "\n", "\r\n", "a\nb\n", "data: x", "\"", "\\", "{}", "[1,2", "null", "ä", "日本語", "😀", "e\u0301", "\u2028", "<b>&amp;</b>", "0", "-1", "\ufffd", "  ", "true"}

// GenString generates a valid UTF-8 string.
func GenString(r *eng.R, size int) string {
	switch r.IntN(8) {
	case 0, 1:
		return stringPool[r.IntN(len(stringPool))]
	case 2:
		n := r.Heavy(size)
		return strings.Repeat(string(rune('a'+r.IntN(26))), n)
	case 3:
		// unicode
		n := r.Heavy(min(size/4, 200))
		var b strings.Builder
		for i := 0; i < n; i++ {
			switch r.IntN(4) {
			case 0:
				b.WriteRune(rune(r.IntN(0x80)))
			case 1:
				b.WriteRune(rune(0x80 + r.IntN(0x780)))
			case 2:
				b.WriteRune(rune(0x4e00 + r.IntN(0x5000)))
			default:
				b.WriteRune(rune(0x1f300 + r.IntN(0x300)))
			}
		}
		return b.String()
	case 4:
		return stringPool[r.IntN(len(stringPool))] + stringPool[r.IntN(len(stringPool))]
	default:
		n := r.Heavy(min(size, 60))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + r.IntN(95))
		}
		return string(b)
	}
}

func genInt(r *eng.R, bits int) int64 {
	var v int64
	switch r.IntN(5) {
	case 0:
		v = int64(r.IntN(5)) - 2
	case 1:
		v = int64(r.IntN(512)) - 256
	case 2:
		e := r.IntN(bits)
		v = int64(1)<<e - 1 + int64(r.IntN(3))
		if r.IntN(2) == 0 {
			v = -v
		}
	case 3:
		if r.IntN(2) == 0 {
			v = math.MaxInt64 >> (64 - bits)
		} else {
			v = math.MinInt64 >> (64 - bits)
		}
	default:
		v = int64(r.Uint64())
	}
	return v << (64 - bits) >> (64 - bits)
}

func genUint(r *eng.R, bits int) uint64 {
	var v uint64
	switch r.IntN(4) {
	case 0:
		v = uint64(r.IntN(300))
	case 1:
		v = math.MaxUint64
	case 2:
		v = uint64(1)<<r.IntN(bits) - 1 + uint64(r.IntN(3))
	default:
		v = r.Uint64()
	}
	return v << (64 - bits) >> (64 - bits)
}

func genFloat(r *eng.R) float64 {
	switch r.IntN(5) {
	case 0:
		return float64(genInt(r, 20))
	case 1:
		return eng.Pick(r, 0, -0.5, 0.1, 1e21, 1e-7, 1e300, -1e-300, 123456789.123456789, math.MaxFloat64, math.SmallestNonzeroFloat64, 3.4028234663852886e38)
	case 2:
		return r.NormFloat64()
	default:
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
}

func genTree(r *eng.R, size, depth int) any {
	k := r.IntN(9)
	if depth > 3 && k >= 6 {
		k = r.IntN(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.IntN(2) == 0
	case 2:
		// integers in interface values go through float64 in JSON
		return genInt(r, 50)
	case 3:
		return genFloat(r)
	case 4, 5:
		return GenString(r, min(size, 300))
	case 6, 7:
		l := make([]any, r.Heavy(min(size, 40)))
		if depth > 1 && len(l) > 5 {
			l = l[:5]
		}
		for i := range l {
			l[i] = genTree(r, size/2, depth+1)
		}
		return l
	default:
		m := map[string]any{}
		n := r.Heavy(min(size, 30))
		if depth > 1 && n > 5 {
			n = 5
		}
		for i := 0; i < n; i++ {
			m[GenString(r, 20)] = genTree(r, size/2, depth+1)
		}
		return m
	}
}

func genValue(r *eng.R, t reflect.Type, size, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genInt(r, t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(genUint(r, t.Bits()))
	case reflect.Float64:
		v.SetFloat(genFloat(r))
	case reflect.Float32:
		f := float32(genFloat(r))
		if math.IsInf(float64(f), 0) {
			f = math.MaxFloat32
		}
		v.SetFloat(float64(f))
	case reflect.String:
		v.SetString(GenString(r, size))
	case reflect.Interface:
		if x := genTree(r, size, depth); x != nil {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Pointer:
		if r.IntN(4) > 0 {
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(genValue(r, t.Elem(), size, depth+1))
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if r.IntN(10) > 0 {
				b := make([]byte, r.Heavy(size))
				for i := range b {
					b[i] = byte(r.Uint32())
				}
				v.SetBytes(b)
			}
			return v
		}
		if r.IntN(10) == 0 {
			return v
		}
		n := r.Heavy(min(size, 300))
		if t.Elem().Kind() == reflect.Struct || t.Elem().Kind() == reflect.Slice || t.Elem().Kind() == reflect.Interface {
			n = r.Heavy(min(size, 40))
		}
		if depth > 0 {
			n = min(n, 20)
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(genValue(r, t.Elem(), min(size, 100), depth+1))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(genValue(r, t.Elem(), size, depth+1))
		}
	case reflect.Map:
		if r.IntN(10) == 0 {
			return v
		}
		n := r.Heavy(min(size, 40))
		if depth > 0 || t.Elem().Kind() == reflect.Struct {
			n = min(n, 4)
		}
		v.Set(reflect.MakeMap(t))
		for i := 0; i < n; i++ {
			v.SetMapIndex(genValue(r, t.Key(), 40, depth+1), genValue(r, t.Elem(), min(size, 60), depth+1))
		}
	case reflect.Struct:
		if t == reflect.TypeFor[time.Time]() {
			sec := int64(r.IntN(1 << 31))
			var ns int64
			if r.IntN(3) > 0 {
				ns = int64(r.IntN(1000000000))
			}
			tm := time.Unix(sec, ns).UTC()
			if r.IntN(4) == 0 {
				tm = time.Unix(genInt(r, 33), 0).UTC()
			}
			v.Set(reflect.ValueOf(tm))
			return v
		}
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() && t.Field(i).Tag.Get("json") != "-" {
				v.Field(i).Set(genValue(r, t.Field(i).Type, min(size, 200), depth+1))
			}
		}
	default:
		panic("genValue " + t.String())
	}
	return v
}

// SameGo compares two Go values: nil and empty slices and maps are the same, times are compared as instants.
func SameGo(a, b any) bool { return Same(norm(Tree(a)), norm(Tree(b)), false) }

// SameLossy is SameGo but integers may have gone through float64.
func SameLossy(a, b any) bool { return Same(norm(Tree(a)), norm(Tree(b)), true) }

// SameWire compares a Go value with a wire tree.
func SameWire(a any, w any) bool { return Same(norm(Tree(a)), norm(w), false) }

// norm replaces empty collections by nil.
func norm(v any) any {
	switch x := v.(type) {
	case string:
		return x
	case []any:
		if len(x) == 0 {
			return nil
		}
		l := make([]any, len(x))
		for i := range x {
			l[i] = norm(x[i])
		}
		return l
	case map[string]any:
		if len(x) == 0 {
			return nil
		}
		m := map[string]any{}
		for k, e := range x {
			m[k] = norm(e)
		}
		return m
	}
	return v
}

// WireOf converts a typed value to the tree a peer which follows the specification would send.
func WireOf(v any) any { return Tree(v) }

// GenTVs generates values of random types.
func GenTVs(r *eng.R, n, size int, not ...string) []TV {
	var l []TV
	for len(l) < n {
		l = append(l, GenTV(r, GenType(r, not...), size))
	}
	return l
}

// GenType picks a type.
func GenType(r *eng.R, not ...string) string {
	for {
		t := TypeNames[r.IntN(len(TypeNames))]
		ok := true
		for _, x := range not {
			ok = ok && x != t
		}
		if ok {
			return t
		}
	}
}
