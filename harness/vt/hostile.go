package vt

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"pgregory.net/rapid"
)

// equalLists names the messages whose parallel lists must be equally long, and single the ones restricted to one piece.
var equalLists = map[string]bool{"ProviderAdminPublishDHTOfferRequest": true, "ClientDHTDiscoverOfferRequest": true,
	"ClientDHTDiscoverResponse": true, "ClientDHTDiscoverResponseV2": true, "ClientDHTDiscoverOfferResponse": true}

// BuildMessage makes a message of a kind from generated fields; subst, if given, may replace a field.
func BuildMessage(rt *rapid.T, k Codec, subst func(reflect.Value) reflect.Value) (*fcrmessages.FCRMessage, []reflect.Value) {
	enc := reflect.ValueOf(k.Encode)
	listLen := -1
	if equalLists[k.Name] {
		listLen = rapid.IntRange(0, 4).Draw(rt, "listlen")
	}
	min, max := 1, 6
	if k.Name == "ProviderPublishDHTOfferRequest" {
		max = 1
	}
	var args []reflect.Value
	for i := 0; i < enc.Type().NumIn(); i++ {
		l := listLen
		if strings.HasPrefix(k.Name, "ClientDHTDiscoverResponse") && i == 2 {
			l = -1 // the uncontactable gateways are not parallel to the others
		}
		a := Arg(rt, enc.Type().In(i), fmt.Sprintf("%s.%d", k.Name, i), l, min, max)
		if subst != nil {
			a = subst(a)
		}
		args = append(args, a)
	}
	out := enc.Call(args)
	if !out[1].IsNil() {
		rt.Fatalf("encoding %s fails: %v", k.Name, out[1])
	}
	return out[0].Interface().(*fcrmessages.FCRMessage), args
}

// Mutate damages bytes in one place.
func Mutate(t *rapid.T, b []byte) []byte {
	r := append([]byte{}, b...)
	switch k := rapid.IntRange(0, 4).Draw(t, "mutation"); {
	case k == 0 && len(r) > 0:
		r[rapid.IntRange(0, len(r)-1).Draw(t, "pos")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
	case k == 1 && len(r) > 0:
		r = r[:rapid.IntRange(0, len(r)-1).Draw(t, "cut")]
	case k == 2 && len(r) > 0:
		i := rapid.IntRange(0, len(r)-1).Draw(t, "del")
		r = append(r[:i], r[i+1:]...)
	case k == 3:
		r = append(r, rapid.Byte().Draw(t, "tail"))
	default:
		r = append([]byte{rapid.Byte().Draw(t, "head")}, r...)
	}
	return r
}

// HostileJSON mutates a JSON document structurally.
func HostileJSON(rt *rapid.T, doc []byte) []byte {
	var v interface{}
	if json.Unmarshal(doc, &v) != nil {
		return Mutate(rt, doc)
	}
	var paths [][]interface{}
	var walk func(p []interface{}, x interface{})
	walk = func(p []interface{}, x interface{}) {
		paths = append(paths, append([]interface{}{}, p...))
		switch y := x.(type) {
		case map[string]interface{}:
			keys := make([]string, 0, len(y))
			for k := range y {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(append(p, k), y[k])
			}
		case []interface{}:
			for i := range y {
				walk(append(p, i), y[i])
			}
		}
	}
	walk(nil, v)
	for n := rapid.IntRange(1, 2).Draw(rt, "edits"); n > 0; n-- {
		p := paths[rapid.IntRange(0, len(paths)-1).Draw(rt, "path")]
		v = editAt(rt, v, p)
	}
	b, err := json.Marshal(v)
	if err != nil {
		return []byte("{}")
	}
	return b
}

func editAt(rt *rapid.T, v interface{}, p []interface{}) interface{} {
	if len(p) == 0 {
		return hostileValue(rt, v)
	}
	switch y := v.(type) {
	case map[string]interface{}:
		k, ok := p[0].(string)
		if !ok {
			return v
		}
		if len(p) == 1 && rapid.IntRange(0, 2).Draw(rt, "drop") == 0 {
			delete(y, k)
		} else if x, ok := y[k]; ok {
			y[k] = editAt(rt, x, p[1:])
		}
		return y
	case []interface{}:
		i, ok := p[0].(int)
		if !ok || i >= len(y) {
			return v
		}
		if len(p) == 1 && rapid.IntRange(0, 2).Draw(rt, "drop") == 0 {
			return append(y[:i:i], y[i+1:]...)
		}
		y[i] = editAt(rt, y[i], p[1:])
		return y
	}
	return v
}

func hostileValue(rt *rapid.T, old interface{}) interface{} {
	if s, ok := old.(string); ok && len(s) >= 12 { // damage the bytes a text stands for, often a length at their head
		if b, err := base64.StdEncoding.DecodeString(s); err == nil && rapid.Bool().Draw(rt, "inside") {
			if n := rapid.IntRange(0, 2).Draw(rt, "at"); n == 0 {
				b[rapid.IntRange(0, 3).Draw(rt, "pos")] = rapid.SampledFrom([]byte{0, 1, 127, 128, 255}).Draw(rt, "byte")
			} else {
				b = Mutate(rt, b)
			}
			return base64.StdEncoding.EncodeToString(b)
		}
	}
	switch rapid.IntRange(0, 9).Draw(rt, "val") {
	case 0:
		return nil
	case 1:
		return rapid.Int64().Draw(rt, "num")
	case 2:
		return rapid.Bool().Draw(rt, "bool")
	case 3:
		return []interface{}{}
	case 4:
		return map[string]interface{}{}
	case 5:
		return []interface{}{nil, old}
	case 6:
		if s, ok := old.(string); ok {
			return string(Mutate(rt, []byte(s)))
		}
		return rapid.SampledFrom([]string{"", "zz", "0", "null"}).Draw(rt, "str")
	case 7:
		if s, ok := old.(string); ok { // damage inside a base64 part, keeping it base64
			b := bytes.TrimSpace([]byte(s))
			if len(b) > 0 {
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "bpos")] = rapid.SampledFrom([]byte("ABab01/+=")).Draw(rt, "b64")
			}
			return string(b)
		}
		return []interface{}{old, old}
	case 8:
		return rapid.SampledFrom([]string{"", "00", "zz", "0", strings.Repeat("f", 66), "AAAAAA==", "AAAAAltdAAAAAltd", "AAAABG51bGwAAAAEbnVsbA=="}).Draw(rt, "special")
	default:
		return strings.Repeat("a", rapid.IntRange(0, 70).Draw(rt, "len"))
	}
}
