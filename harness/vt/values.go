package vt

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"pgregory.net/rapid"
)

// Text generates the strings messages carry: addresses, vouchers, challenges, digests.
func Text() *rapid.Generator[string] {
	return rapid.OneOf(rapid.String(), rapid.StringMatching("[a-z0-9]{0,40}"), rapid.StringMatching("[A-Za-z0-9+/]{43}="),
		rapid.SampledFrom([]string{"", " ", "0", "null", "\"", "\\", "</script>&<>", "a\x00b", "\u2028\u2029", "日本語", "t2xyz"}))
}

// CIDs generates n distinct content ids, n between min and max.
func CIDs(min, max int) *rapid.Generator[[]cid.ContentID] {
	return rapid.Custom(func(t *rapid.T) []cid.ContentID {
		raw := rapid.SliceOfNDistinct(ID32(), min, max, func(b []byte) string { return string(b) }).Draw(t, "cids")
		var r []cid.ContentID
		for _, b := range raw {
			r = append(r, *CID(b))
		}
		return r
	})
}

// SomeOffer generates an offer with any terms over min to max pieces; mostly signed.
func SomeOffer(min, max int) *rapid.Generator[*cidoffer.CIDOffer] {
	return rapid.Custom(func(t *rapid.T) *cidoffer.CIDOffer {
		o, err := cidoffer.NewCIDOffer(Node(ID32().Draw(t, "provider")), CIDs(min, max).Draw(t, "pieces"), Uint64().Draw(t, "price"), Int64().Draw(t, "expiry"), Uint64().Draw(t, "qos"))
		if err != nil {
			panic(err)
		}
		if rapid.IntRange(0, 3).Draw(t, "signed") > 0 {
			if err := o.Sign(Key(rapid.IntRange(0, 5).Draw(t, "signer")), Ver(rapid.Uint32().Draw(t, "kver"))); err != nil {
				panic(err)
			}
		}
		return o
	})
}

// SomeMessage generates an arbitrary envelope.
func SomeMessage() *rapid.Generator[*fcrmessages.FCRMessage] {
	return rapid.Custom(func(t *rapid.T) *fcrmessages.FCRMessage {
		body := rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 60), rapid.Just([]byte("{}"))).Draw(t, "body")
		m := fcrmessages.CreateFCRMessage(rapid.OneOf(rapid.Int32(), rapid.Int32Range(100, 115), rapid.Int32Range(200, 210), rapid.Int32Range(300, 303)).Draw(t, "type"), body)
		if rapid.Bool().Draw(t, "signed") {
			if err := m.Sign(Key(rapid.IntRange(0, 5).Draw(t, "signer")), Ver(rapid.Uint32().Draw(t, "kver"))); err != nil {
				panic(err)
			}
		}
		return m
	})
}

// Arg generates a value of a type that occurs in message signatures.
func Arg(t *rapid.T, typ reflect.Type, label string, listLen, minPieces, maxPieces int) reflect.Value {
	switch typ {
	case reflect.TypeOf((*cid.ContentID)(nil)):
		return reflect.ValueOf(CID(ID32().Draw(t, label)))
	case reflect.TypeOf((*nodeid.NodeID)(nil)):
		return reflect.ValueOf(Node(ID32().Draw(t, label)))
	case reflect.TypeOf(nodeid.NodeID{}):
		return reflect.ValueOf(*Node(ID32().Draw(t, label)))
	case reflect.TypeOf(cid.ContentID{}):
		return reflect.ValueOf(*CID(ID32().Draw(t, label)))
	case reflect.TypeOf((*fcrcrypto.KeyPair)(nil)):
		return reflect.ValueOf(Key(rapid.IntRange(0, 40).Draw(t, label)))
	case reflect.TypeOf((*fcrcrypto.KeyVersion)(nil)):
		return reflect.ValueOf(Ver(rapid.Uint32().Draw(t, label)))
	case reflect.TypeOf((*cidoffer.CIDOffer)(nil)):
		return reflect.ValueOf(SomeOffer(minPieces, maxPieces).Draw(t, label))
	case reflect.TypeOf(cidoffer.CIDOffer{}):
		return reflect.ValueOf(*SomeOffer(minPieces, maxPieces).Draw(t, label))
	case reflect.TypeOf(cidoffer.SubCIDOffer{}):
		o := SomeOffer(1, 6).Draw(t, label)
		cs := o.GetCIDs()
		s, err := o.GenerateSubCIDOffer(&cs[rapid.IntRange(0, len(cs)-1).Draw(t, "sub")])
		if err != nil {
			panic(err)
		}
		return reflect.ValueOf(*s)
	case reflect.TypeOf((*fcrmerkletree.FCRMerkleProof)(nil)):
		o := SomeOffer(1, 6).Draw(t, label)
		cs := o.GetCIDs()
		s, err := o.GenerateSubCIDOffer(&cs[rapid.IntRange(0, len(cs)-1).Draw(t, "sub")])
		if err != nil {
			panic(err)
		}
		return reflect.ValueOf(s.GetMerkleProof())
	case reflect.TypeOf((*fcrmessages.FCRMessage)(nil)):
		return reflect.ValueOf(SomeMessage().Draw(t, label))
	case reflect.TypeOf(fcrmessages.FCRMessage{}):
		return reflect.ValueOf(*SomeMessage().Draw(t, label))
	}
	switch typ.Kind() {
	case reflect.Bool:
		return reflect.ValueOf(rapid.Bool().Draw(t, label))
	case reflect.String:
		return reflect.ValueOf(Text().Draw(t, label))
	case reflect.Int32:
		return reflect.ValueOf(rapid.Int32().Draw(t, label))
	case reflect.Int64:
		return reflect.ValueOf(Int64().Draw(t, label))
	case reflect.Uint64:
		return reflect.ValueOf(Uint64().Draw(t, label))
	case reflect.Slice:
		n := listLen
		if n < 0 {
			n = rapid.IntRange(0, 4).Draw(t, label+"len")
		}
		s := reflect.MakeSlice(typ, 0, n)
		for i := 0; i < n; i++ {
			s = reflect.Append(s, Arg(t, typ.Elem(), label, -1, minPieces, maxPieces))
		}
		return s
	}
	panic("vt: no generator for " + typ.String())
}

// Canon writes a message field in a form in which equal values are equal strings.
func Canon(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case *fcrcrypto.KeyPair:
		if x == nil {
			return "nil key"
		}
		return "key:" + x.EncodePrivateKey()
	case *fcrcrypto.KeyVersion:
		if x == nil {
			return "nil version"
		}
		return fmt.Sprint("ver:", x.EncodeKeyVersion())
	case *cid.ContentID:
		if x == nil {
			return "nil cid"
		}
		return x.ToString()
	case *nodeid.NodeID:
		if x == nil {
			return "nil node"
		}
		return x.ToString()
	case cid.ContentID:
		return x.ToString()
	case nodeid.NodeID:
		return x.ToString()
	case string:
		return fmt.Sprintf("%q", x)
	}
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "nil"
		}
		return Canon(v.Elem())
	}
	if v.Kind() == reflect.Slice {
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, Canon(v.Index(i)))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	switch v.Kind() {
	case reflect.Bool, reflect.Int32, reflect.Int64, reflect.Uint64:
		return fmt.Sprint(v.Interface())
	}
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return "unencodable: " + err.Error()
	}
	return string(b)
}

// Complete says what is missing from a decoded field ("" if nothing is): every identifier, key,
// proof and offer part must be there and usable.
func Complete(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case *cid.ContentID:
		if x == nil || len(x.ToBytes()) != 32 {
			return "content id missing"
		}
		return ""
	case *nodeid.NodeID:
		if x == nil || len(x.ToBytes()) != 32 {
			return "node id missing"
		}
		return ""
	case cid.ContentID:
		return Complete(reflect.ValueOf(&x))
	case nodeid.NodeID:
		return Complete(reflect.ValueOf(&x))
	case *fcrcrypto.KeyPair:
		if x == nil {
			return "key missing"
		}
		if _, err := x.EncodePublicKey(); err != nil {
			return "key unusable"
		}
		return ""
	case *fcrcrypto.KeyVersion:
		if x == nil {
			return "key version missing"
		}
		return ""
	case *fcrmerkletree.FCRMerkleProof:
		if x == nil {
			return "merkle proof missing"
		}
		x.VerifyContent(CID([]byte{1}), "00")
		return ""
	case *cidoffer.CIDOffer:
		if x == nil {
			return "offer missing"
		}
		if len(x.GetCIDs()) == 0 {
			return "offer without pieces"
		}
		if m := Complete(reflect.ValueOf(x.GetProviderID())); m != "" {
			return m
		}
		cs := x.GetCIDs()
		for i := range cs {
			if m := Complete(reflect.ValueOf(&cs[i])); m != "" {
				return m
			}
			s, err := x.GenerateSubCIDOffer(&cs[i])
			if err != nil || s.VerifyMerkleProof() != nil {
				return "no sub-offer for one of the pieces"
			}
		}
		x.GetMessageDigest()
		x.HasExpired()
		x.Verify(Key(0))
		if _, err := json.Marshal(x); err != nil {
			return "offer cannot be encoded"
		}
		return ""
	case cidoffer.CIDOffer:
		return Complete(reflect.ValueOf(&x))
	case cidoffer.SubCIDOffer:
		if m := Complete(reflect.ValueOf(x.GetProviderID())); m != "" {
			return m
		}
		if m := Complete(reflect.ValueOf(x.GetSubCID())); m != "" {
			return m
		}
		if m := Complete(reflect.ValueOf(x.GetMerkleProof())); m != "" {
			return m
		}
		x.VerifyMerkleProof()
		x.HasExpired()
		x.Verify(Key(0))
		if _, err := json.Marshal(x); err != nil {
			return "sub-offer cannot be encoded"
		}
		return ""
	case *fcrmessages.FCRMessage:
		if x == nil {
			return "message missing"
		}
		x.Verify(Key(0))
		if _, err := x.FCRMsgToBytes(); err != nil {
			return "message cannot be encoded"
		}
		return ""
	case fcrmessages.FCRMessage:
		return Complete(reflect.ValueOf(&x))
	}
	if v.Kind() == reflect.Slice {
		for i := 0; i < v.Len(); i++ {
			if m := Complete(v.Index(i)); m != "" {
				return m
			}
		}
	}
	return ""
}
