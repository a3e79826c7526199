package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
)

// concrete lists the types that stand behind interfaces; messages are pointers, list entries are values.
var concrete = map[string]interface{}{}

func init() {
	for _, v := range []interface{}{
		&ofxgo.SignonResponse{},
		&ofxgo.StatementRequest{}, &ofxgo.StatementResponse{}, &ofxgo.CCStatementRequest{}, &ofxgo.CCStatementResponse{},
		&ofxgo.InvStatementRequest{}, &ofxgo.InvStatementResponse{}, &ofxgo.SecListRequest{}, &ofxgo.SecListResponse{}, &ofxgo.SecurityList{},
		&ofxgo.AcctInfoRequest{}, &ofxgo.AcctInfoResponse{}, &ofxgo.ProfileRequest{}, &ofxgo.ProfileResponse{},
		ofxgo.BuyDebt{}, ofxgo.BuyMF{}, ofxgo.BuyOpt{}, ofxgo.BuyOther{}, ofxgo.BuyStock{}, ofxgo.ClosureOpt{}, ofxgo.Income{},
		ofxgo.InvExpense{}, ofxgo.JrnlFund{}, ofxgo.JrnlSec{}, ofxgo.MarginInterest{}, ofxgo.Reinvest{}, ofxgo.RetOfCap{},
		ofxgo.SellDebt{}, ofxgo.SellMF{}, ofxgo.SellOpt{}, ofxgo.SellOther{}, ofxgo.SellStock{}, ofxgo.Split{}, ofxgo.Transfer{},
		ofxgo.DebtPosition{}, ofxgo.MFPosition{}, ofxgo.OptPosition{}, ofxgo.OtherPosition{}, ofxgo.StockPosition{},
		ofxgo.OOBuyDebt{}, ofxgo.OOBuyMF{}, ofxgo.OOBuyOpt{}, ofxgo.OOBuyOther{}, ofxgo.OOBuyStock{}, ofxgo.OOSellDebt{},
		ofxgo.OOSellMF{}, ofxgo.OOSellOpt{}, ofxgo.OOSellOther{}, ofxgo.OOSellStock{}, ofxgo.OOSwitchMF{},
		ofxgo.DebtInfo{}, ofxgo.MFInfo{}, ofxgo.OptInfo{}, ofxgo.OtherInfo{}, ofxgo.StockInfo{},
	} {
		t := reflect.TypeOf(v)
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		concrete[t.Name()] = v
	}
}

var enumByType = map[reflect.Type]reflect.Value{}

func init() {
	for _, f := range enumNew {
		enumByType[f.Type().Out(0)] = f
	}
}

// isLeaf tells whether values of a type are written as one leaf element.
func isLeaf(t reflect.Type) bool {
	_, ok := canon(reflect.New(t).Elem())
	return ok
}

// setLeaf gives a leaf the value with a canonical text (the inverse of canon); "#n" is the raw number of an enum.
func setLeaf(v reflect.Value, s string) error {
	switch v.Interface().(type) {
	case ofxgo.Int:
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return err
		}
		v.SetInt(n)
		return nil
	case ofxgo.Amount:
		var a ofxgo.Amount
		if _, ok := a.SetString(s); !ok {
			return fmt.Errorf("no amount: %q", s)
		}
		v.Set(reflect.ValueOf(a))
		return nil
	case ofxgo.Date:
		i := strings.IndexByte(s, ':')
		d, err := strconv.ParseInt(s[:i], 10, 64)
		if err != nil {
			return err
		}
		ms, err := strconv.ParseInt(s[i+1:], 10, 64)
		if err != nil {
			return err
		}
		t := time.Unix(d*86400+ms/1000, (ms%1000)*1000000).UTC()
		v.Set(reflect.ValueOf(ofxgo.Date{Time: t}))
		return nil
	case ofxgo.Boolean:
		v.SetBool(s == "Y")
		return nil
	case ofxgo.UID, ofxgo.String, string:
		v.SetString(s)
		return nil
	case ofxgo.CurrSymbol:
		c, err := ofxgo.NewCurrSymbol(s)
		if err != nil {
			return err
		}
		v.Set(reflect.ValueOf(*c))
		return nil
	}
	if strings.HasPrefix(s, "#") {
		n, err := strconv.ParseUint(s[1:], 10, 32)
		v.SetUint(n)
		return err
	}
	f, ok := enumByType[v.Type()]
	if !ok {
		return fmt.Errorf("cannot set a %s", v.Type())
	}
	r := f.Call([]reflect.Value{reflect.ValueOf(s)})
	if !r[1].IsNil() {
		return r[1].Interface().(error)
	}
	v.Set(r[0])
	return nil
}

// build gives v the content the projection p describes below path (the inverse of project).
func build(v reflect.Value, path string, p smap, used map[string]bool) error {
	get := func(k string) (string, bool) {
		s, ok := p[k]
		if ok {
			used[k] = true
		}
		return s, ok
	}
	t := v.Type()
	if t.Kind() == reflect.Ptr {
		if isLeaf(t.Elem()) {
			if s, ok := get(path); ok {
				v.Set(reflect.New(t.Elem()))
				return setLeaf(v.Elem(), s)
			}
			return nil
		}
		if _, ok := get(path + "!"); ok {
			v.Set(reflect.New(t.Elem()))
			return build(v.Elem(), path, p, used)
		}
		return nil
	}
	if isLeaf(t) {
		if s, ok := get(path); ok {
			return setLeaf(v, s)
		}
		return nil
	}
	switch t.Kind() {
	case reflect.Interface:
		s, ok := get(path + "@")
		if !ok {
			return fmt.Errorf("no type for %s", path)
		}
		proto, ok := concrete[strings.SplitN(s, "/", 2)[0]]
		if !ok {
			return fmt.Errorf("unknown type %s", s)
		}
		ct := reflect.TypeOf(proto)
		ptr := ct.Kind() == reflect.Ptr
		if ptr {
			ct = ct.Elem()
		}
		o := reflect.New(ct)
		if err := build(o.Elem(), path, p, used); err != nil {
			return err
		}
		if ptr {
			v.Set(o)
		} else {
			v.Set(o.Elem())
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Name == "XMLName" {
				continue
			}
			q := f.Name
			if path != "" {
				q = path + "." + f.Name
			}
			if err := build(v.Field(i), q, p, used); err != nil {
				return err
			}
		}
	case reflect.Slice:
		s, ok := get(path + "#")
		if !ok {
			return nil
		}
		n, err := strconv.Atoi(s)
		if err != nil {
			return err
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			if err := build(v.Index(i), fmt.Sprintf("%s[%d]", path, i), p, used); err != nil {
				return err
			}
		}
	default:
		return fmt.Errorf("cannot build a %s at %s", t, path)
	}
	return nil
}

// buildInto fills the slots (and Signon) of a Request or Response; every path of p must find its place.
func buildInto(o interface{}, p smap) error {
	v := reflect.ValueOf(o).Elem()
	used := map[string]bool{}
	for _, f := range rsSlots {
		if err := build(v.FieldByName(f), f, p, used); err != nil {
			return err
		}
	}
	if len(used) != len(p) {
		for k := range p {
			if !used[k] {
				return fmt.Errorf("the API has no place for %s", k)
			}
		}
	}
	return nil
}

func setVersion(o interface{}, raw uint64) {
	reflect.ValueOf(o).Elem().FieldByName("Version").SetUint(raw)
}

// rawVersion is the Go constant of a version number.
func rawVersion(ver int) uint64 {
	v, err := ofxgo.NewOfxVersion(strconv.Itoa(ver))
	if err != nil {
		panic(err)
	}
	return reflect.ValueOf(v).Uint()
}
