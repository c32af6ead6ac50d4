// Package lib connects the reference model to the library's exported types.
package lib

import (
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
	"verif/sim/model"
)

var roots = map[string]reflect.Type{
	"ACCTINFOTRNRQ": reflect.TypeOf(ofxgo.AcctInfoRequest{}),
	"STMTTRNRQ":     reflect.TypeOf(ofxgo.StatementRequest{}),
	"CCSTMTTRNRQ":   reflect.TypeOf(ofxgo.CCStatementRequest{}),
	"INVSTMTTRNRQ":  reflect.TypeOf(ofxgo.InvStatementRequest{}),
	"SECLISTTRNRQ":  reflect.TypeOf(ofxgo.SecListRequest{}),
	"PROFTRNRQ":     reflect.TypeOf(ofxgo.ProfileRequest{}),
}

var (
	tAmount = reflect.TypeOf(ofxgo.Amount{})
	tDate   = reflect.TypeOf(ofxgo.Date{})
	tCur    = reflect.TypeOf(ofxgo.CurrSymbol{})
)

// Version maps a number to the library's constant.
func Version(v int) any { return versions[v] }

var versions = map[int]any{
	102: ofxgo.OfxVersion102, 103: ofxgo.OfxVersion103, 151: ofxgo.OfxVersion151, 160: ofxgo.OfxVersion160,
	200: ofxgo.OfxVersion200, 201: ofxgo.OfxVersion201, 202: ofxgo.OfxVersion202, 203: ofxgo.OfxVersion203,
	210: ofxgo.OfxVersion210, 211: ofxgo.OfxVersion211, 220: ofxgo.OfxVersion220,
}

// SetVersion stores version v into the (unexported type) field at p.
func SetVersion(p any, v int) {
	reflect.ValueOf(p).Elem().Set(reflect.ValueOf(versions[v]))
}

// VersionNum is the number of a library version value (0: invalid).
func VersionNum(v any) int {
	for n, c := range versions {
		if c == v {
			return n
		}
	}
	return 0
}

// zeroish: v carries no information.
func zeroish(v reflect.Value) bool {
	switch v.Type() {
	case tAmount:
		a := v.Interface().(ofxgo.Amount)
		return a.Sign() == 0
	case tDate:
		return v.Interface().(ofxgo.Date).IsZero()
	case tCur:
		c := v.Interface().(ofxgo.CurrSymbol)
		return c.String() == "XXX"
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.Slice:
		return v.Len() == 0
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "XMLName" || !v.Type().Field(i).IsExported() {
				continue
			}
			if !zeroish(v.Field(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

// DiffMessage compares a library message (pointer or value) with an element.
func DiffMessage(n *model.Node, msg any) string {
	v := reflect.ValueOf(msg)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return n.T + ": nil value"
		}
		v = v.Elem()
	}
	return diffAgg(n.T, n.T, n, v)
}

func diffAgg(path, agg string, n *model.Node, v reflect.Value) string {
	a := model.Aggs[agg]
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return path + ": missing"
		}
		v = v.Elem()
	}
	if v.Type().Name() != a.GoType {
		return fmt.Sprintf("%s: is a %s, expected %s", path, v.Type().Name(), a.GoType)
	}
	return diffFields(path, a.Fields, n.K, v)
}

func count(kids []*model.Node, tag string) []*model.Node {
	var out []*model.Node
	for _, k := range kids {
		if k.T == tag {
			out = append(out, k)
		}
	}
	return out
}

func diffFields(path string, fields []*model.Field, kids []*model.Node, v reflect.Value) string {
	for _, f := range fields {
		p := path + ">" + f.Tag
		if f.Kind == "wrap" {
			var sub []*model.Node
			if m := count(kids, f.Tag); len(m) > 0 {
				sub = m[0].K
			}
			if d := diffFields(p, f.Kids, sub, v); d != "" {
				return d
			}
			continue
		}
		if f.Kind == "poly" {
			if d := diffPoly(path, f, kids, v); d != "" {
				return d
			}
			continue
		}
		fv := v.FieldByName(f.Go)
		if !fv.IsValid() {
			return fmt.Sprintf("%s: no field %s", p, f.Go)
		}
		m := count(kids, f.Tag)
		if f.Kind == "agg" && f.Tag == "SECID" && len(kids) > 0 { // OPTINFO/SWITCHMF: own SECID, not nested ones
		}
		if fv.Kind() == reflect.Slice {
			if fv.Len() != len(m) {
				return fmt.Sprintf("%s: %d values, expected %d", p, fv.Len(), len(m))
			}
			for i := range m {
				if d := diffOne(fmt.Sprintf("%s[%d]", p, i), f, m[i], fv.Index(i)); d != "" {
					return d
				}
			}
			continue
		}
		if len(m) == 0 {
			if !zeroish(fv) {
				return fmt.Sprintf("%s: value %v, expected none", p, show(fv))
			}
			continue
		}
		if d := diffOne(p, f, m[0], fv); d != "" {
			return d
		}
	}
	return ""
}

func show(v reflect.Value) string {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	s := fmt.Sprintf("%v", v.Interface())
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

func diffPoly(path string, f *model.Field, kids []*model.Node, v reflect.Value) string {
	if f.Poly == "msgset" {
		l := v.FieldByName(f.Go)
		if l.Len() != len(kids) {
			return fmt.Sprintf("%s: %d message sets, expected %d", path, l.Len(), len(kids))
		}
		for i, k := range kids {
			e := l.Index(i)
			if got := e.FieldByName("Name").String(); got != k.K[0].T {
				return fmt.Sprintf("%s[%d]: name %s, expected %s", path, i, got, k.K[0].T)
			}
			if d := diffAgg(fmt.Sprintf("%s>%s", path, k.T), "MSGSET", k.K[0], e); d != "" {
				return d
			}
		}
		return ""
	}
	alts := map[string]bool{}
	for _, t := range model.Polys[f.Poly] {
		alts[t] = true
	}
	gofs := strings.Split(f.Go, "+")
	lists := make([][]*model.Node, len(gofs))
	for _, k := range kids {
		if !alts[k.T] {
			continue
		}
		i := 0
		if k.T == "INVBANKTRAN" {
			i = 1
		}
		lists[i] = append(lists[i], k)
	}
	for i, g := range gofs {
		l := v.FieldByName(g)
		if l.Len() != len(lists[i]) {
			return fmt.Sprintf("%s: %d in %s, expected %d", path, l.Len(), g, len(lists[i]))
		}
		for j, k := range lists[i] {
			e := l.Index(j)
			if d := diffAgg(fmt.Sprintf("%s>%s[%d]", path, k.T, j), k.T, k, e); d != "" {
				return d
			}
		}
	}
	return ""
}

func diffOne(p string, f *model.Field, n *model.Node, v reflect.Value) string {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return fmt.Sprintf("%s: absent, expected %q", p, n.V)
		}
		v = v.Elem()
	}
	if f.Kind == "agg" {
		return diffAgg(p, f.Agg, n, v)
	}
	bad := func() string { return fmt.Sprintf("%s: %s, expected %q", p, show(v), n.V) }
	switch f.Kind {
	case "str", "lang", "uid":
		if v.Kind() != reflect.String || v.String() != n.V {
			return bad()
		}
	case "amt":
		a, ok := v.Interface().(ofxgo.Amount)
		w, err := model.ParseAmt(n.V)
		if !ok || err != nil || a.Cmp(w) != 0 {
			return bad()
		}
	case "date":
		d, ok := v.Interface().(ofxgo.Date)
		w, err := model.ParseDate(n.V)
		if !ok || err != nil || !d.Time.Equal(w) {
			return bad()
		}
	case "int", "status":
		w, err := strconv.ParseInt(n.V, 10, 64)
		if v.Kind() != reflect.Int64 || err != nil || v.Int() != w {
			return bad()
		}
	case "bool", "boolT":
		if v.Kind() != reflect.Bool || v.Bool() != (n.V == "Y") {
			return bad()
		}
	case "cur":
		c, ok := v.Interface().(ofxgo.CurrSymbol)
		if !ok || c.String() != n.V {
			return bad()
		}
	case "enum":
		if v.Interface() != model.Enums[f.Enum][n.V] {
			return bad()
		}
	default:
		return "kind " + f.Kind
	}
	return ""
}

// DiffResponse compares a parsed response with the document it came from.
func DiffResponse(d *model.Doc, r *ofxgo.Response) string {
	if r == nil {
		return "no response"
	}
	if VersionNum(r.Version) != d.Version {
		return fmt.Sprintf("version %v, expected %d", r.Version, d.Version)
	}
	if s := diffAgg("SONRS", "SONRS", d.Sets[0].K[0], reflect.ValueOf(r.Signon)); s != "" {
		return s
	}
	v := reflect.ValueOf(r).Elem()
	for _, set := range model.ResponseSets {
		var want []*model.Node
		for _, s := range d.Sets[1:] {
			if s.T == set.Tag {
				want = append(want, s.K...)
			}
		}
		got := v.FieldByName(set.Go)
		if got.Len() != len(want) {
			return fmt.Sprintf("%s: %d messages, expected %d", set.Go, got.Len(), len(want))
		}
		for i, w := range want {
			if s := diffAgg(fmt.Sprintf("%s[%d]>%s", set.Go, i, w.T), w.T, w, got.Index(i)); s != "" {
				return s
			}
		}
	}
	for _, o := range model.OtherSets {
		if v.FieldByName(o).Len() != 0 {
			return o + ": messages out of nowhere"
		}
	}
	return ""
}

// BuildMessage makes a library request message from an element.
func BuildMessage(n *model.Node) ofxgo.Message {
	p := reflect.New(roots[n.T])
	fill(p.Elem(), model.Aggs[n.T].Fields, n.K)
	return p.Interface().(ofxgo.Message)
}

func fill(v reflect.Value, fields []*model.Field, kids []*model.Node) {
	for _, f := range fields {
		m := count(kids, f.Tag)
		if len(m) == 0 {
			continue
		}
		if f.Kind == "wrap" {
			fill(v, f.Kids, m[0].K)
			continue
		}
		fv := v.FieldByName(f.Go)
		if f.Fixed != "" {
			continue // supplied by the library
		}
		if fv.Kind() == reflect.Slice {
			for _, k := range m {
				e := reflect.New(fv.Type().Elem()).Elem()
				fillOne(e, f, k)
				fv.Set(reflect.Append(fv, e))
			}
			continue
		}
		fillOne(fv, f, m[0])
	}
}

func fillOne(v reflect.Value, f *model.Field, n *model.Node) {
	if v.Kind() == reflect.Ptr {
		p := reflect.New(v.Type().Elem())
		fillOne(p.Elem(), f, n)
		v.Set(p)
		return
	}
	switch f.Kind {
	case "agg":
		fill(v, model.Aggs[f.Agg].Fields, n.K)
	case "str", "lang", "uid":
		v.SetString(n.V)
	case "amt":
		r, _ := model.ParseAmt(n.V)
		var a ofxgo.Amount
		a.Rat = *new(big.Rat).Set(r)
		v.Set(reflect.ValueOf(a))
	case "date":
		t, _ := model.ParseDate(n.V)
		v.Set(reflect.ValueOf(ofxgo.Date{Time: t}))
	case "int":
		i, _ := strconv.ParseInt(n.V, 10, 64)
		v.SetInt(i)
	case "bool", "boolT":
		v.SetBool(n.V == "Y")
	case "enum":
		v.Set(reflect.ValueOf(model.Enums[f.Enum][n.V]))
	default:
		panic("fill " + f.Kind)
	}
}

// BuildRequest makes a library request from a document.  The client fills in
// version, DTCLIENT, APPID and APPVER.
func BuildRequest(d *model.Doc, url string) *ofxgo.Request {
	q := &ofxgo.Request{URL: url}
	SetVersion(&q.Version, d.Version)
	fill(reflect.ValueOf(&q.Signon).Elem(), model.Aggs["SONRQ"].Fields, d.Sets[0].K[0].K)
	v := reflect.ValueOf(q).Elem()
	for _, s := range d.Sets[1:] {
		for _, set := range model.RequestSets {
			if set.Tag != s.T {
				continue
			}
			l := v.FieldByName(set.Go)
			for _, m := range s.K {
				l.Set(reflect.Append(l, reflect.ValueOf(BuildMessage(m))))
			}
		}
	}
	return q
}

var _ = time.Now

// Types exercised by polymorphic lists, for reference.
var _ = []any{ofxgo.BuyDebt{}, ofxgo.SellStock{}}
