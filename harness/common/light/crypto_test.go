package light

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

var curveN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

func privBytes() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		for {
			b := vt.ID32().Draw(t, "priv")
			d := new(big.Int).SetBytes(b)
			if d.Sign() > 0 && d.Cmp(curveN) < 0 {
				return b
			}
			// fold the out-of-range values into the range
			d.Mod(d, new(big.Int).Sub(curveN, big.NewInt(1)))
			d.Add(d, big.NewInt(1))
			r := make([]byte, 32)
			return d.FillBytes(r)
		}
	})
}

func message() *rapid.Generator[[]byte] {
	return rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 80), rapid.SliceOfN(rapid.Byte(), 0, 3),
		rapid.Custom(func(t *rapid.T) []byte {
			n := rapid.SampledFrom([]int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096}).Draw(t, "len")
			return bytes.Repeat([]byte{byte(rapid.IntRange(0, 3).Draw(t, "fill"))}, n)
		}), rapid.Custom(large))
}

// large draws a message of up to a megabyte.
func large(t *rapid.T) []byte {
	n := rapid.SampledFrom([]int{1 << 13, 1 << 14, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<17 + 5, 1 << 19, 1 << 20}).Draw(t, "large")
	return bytes.Repeat([]byte{byte(rapid.IntRange(0, 3).Draw(t, "fill"))}, n)
}

// brief shortens a large text for the record of a case.
func brief(b []byte) string {
	if len(b) > 5000 {
		return fmt.Sprintf("%x.. (%d bytes)", b[:8], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func mustVerify(rt *rapid.T, what string, k *fcrcrypto.KeyPair, sig string, msg []byte, want bool) {
	rt.Helper()
	var ok bool
	var err error
	if p := vt.NoPanic(func() { ok, err = fcrcrypto.VerifyMessage(k, sig, msg) }); p != "" {
		rt.Fatalf("%s: VerifyMessage panics: %s", what, p)
	}
	if want && (!ok || err != nil) {
		rt.Fatalf("%s: signature %s does not verify: %v %v", what, sig, ok, err)
	}
	if !want && ok {
		rt.Fatalf("%s: signature %s verifies over %s", what, sig, brief(msg))
	}
}

func mutate(t *rapid.T, b []byte) []byte { return vt.Mutate(t, b) }

func TestK01_Signatures(t *testing.T) {
	vt.Check(t, 500, func(rt *rapid.T, c *vt.Case) {
		kb := privBytes().Draw(rt, "key")
		key, err := fcrcrypto.DecodePrivateKey("01" + hex.EncodeToString(kb))
		if err != nil {
			rt.Fatalf("valid private key %x refused: %v", kb, err)
		}
		pub := vt.Pub(key)
		ver := rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, 255, 256, 1 << 16, 1 << 24, 1<<32 - 1})).Draw(rt, "ver")
		msg := message().Draw(rt, "msg")
		c.Addf("key=%x ver=%d msg=%s", kb, ver, brief(msg))
		c.NonTrivial("signed")
		orig := append([]byte{}, msg...)
		sig, err := fcrcrypto.SignMessage(key, vt.Ver(ver), msg)
		if err != nil {
			rt.Fatalf("sign: %v", err)
		}
		if !bytes.Equal(orig, msg) {
			rt.Fatalf("signing changed the message")
		}
		kv, err := fcrcrypto.ExtractKeyVersionFromMessage(sig)
		if err != nil || kv.EncodeKeyVersion() != ver || !kv.Equals(vt.Ver(ver)) || kv.NotEquals(vt.Ver(ver)) {
			rt.Fatalf("key version of %s is %v (%v), want %d", sig, kv, err, ver)
		}
		mustVerify(rt, "public key", pub, sig, msg, true)
		mustVerify(rt, "key pair", key, sig, msg, true)
		mustVerify(rt, "public key again", pub, sig, msg, true)

		// other messages
		for i := 0; i < 3; i++ {
			m2 := mutate(rt, msg)
			if !bytes.Equal(m2, msg) {
				mustVerify(rt, "other message", pub, sig, m2, false)
			}
		}
		// other keys
		kb2 := privBytes().Draw(rt, "key2")
		if !bytes.Equal(kb, kb2) {
			k2, _ := fcrcrypto.DecodePrivateKey("01" + hex.EncodeToString(kb2))
			mustVerify(rt, "other key", vt.Pub(k2), sig, msg, false)
		}
		pb, _ := hex.DecodeString(vt.PubHex(key))
		pb[rapid.IntRange(2, 65).Draw(rt, "pkpos")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "pkbit"))
		if k3, err := fcrcrypto.DecodePublicKey(hex.EncodeToString(pb)); err == nil {
			mustVerify(rt, "altered public key", k3, sig, msg, false)
		}
		// altered signature value (r, s)
		sb, _ := hex.DecodeString(sig)
		if len(sb) < 4+64 {
			rt.Fatalf("signature has %d bytes", len(sb))
		}
		for i := 0; i < 3; i++ {
			s2 := append([]byte{}, sb...)
			s2[rapid.IntRange(4, 67).Draw(rt, "sigpos")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "sigbit"))
			mustVerify(rt, "altered signature", pub, hex.EncodeToString(s2), msg, false)
		}
		s := new(big.Int).SetBytes(sb[36:68])
		s.Sub(curveN, s)
		s2 := append([]byte{}, sb...)
		s.FillBytes(s2[36:68])
		mustVerify(rt, "malleated signature", pub, hex.EncodeToString(s2), msg, false)
		cut := rapid.IntRange(0, 67).Draw(rt, "sigcut")
		mustVerify(rt, "truncated signature", pub, hex.EncodeToString(sb[:cut]), msg, false)
		mustVerify(rt, "extended signature", pub, sig+"00", msg, false)
		swapped := append(append(append([]byte{}, sb[:4]...), sb[36:68]...), sb[4:36]...)
		if !bytes.Equal(sb[4:36], sb[36:68]) {
			mustVerify(rt, "r and s swapped", pub, hex.EncodeToString(append(swapped, sb[68:]...)), msg, false)
		}
	})
}

func TestK01_KeyEncodings(t *testing.T) {
	vt.Check(t, 400, func(rt *rapid.T, c *vt.Case) {
		kb := privBytes().Draw(rt, "key")
		c.Addf("key=%x", kb)
		c.NonTrivial("key")
		msg := message().Draw(rt, "msg")
		key, err := fcrcrypto.DecodePrivateKey("01" + hex.EncodeToString(kb))
		if err != nil {
			rt.Fatalf("private key %x refused: %v", kb, err)
		}
		if s := key.EncodePrivateKey(); s != "01"+hex.EncodeToString(kb) {
			rt.Fatalf("private key encodes as %s", s)
		}
		raw, err := key.EncodeRawPrivateKey()
		if err != nil || raw != hex.EncodeToString(kb) {
			rt.Fatalf("raw private key encodes as %s (%v)", raw, err)
		}
		rk, err := fcrcrypto.DecodeRawPrivateKey(raw)
		if err != nil {
			rt.Fatalf("raw key refused: %v", err)
		}
		id, err := nodeid.NewNodeIDFromPublicKey(key)
		if err != nil {
			rt.Fatalf("node id: %v", err)
		}
		pub := vt.Pub(key)
		js, err := json.Marshal(key)
		if err != nil {
			rt.Fatalf("json: %v", err)
		}
		var jk fcrcrypto.KeyPair
		if err := json.Unmarshal(js, &jk); err != nil {
			rt.Fatalf("json: %v", err)
		}
		held, _ := fcrcrypto.DecodePublicKey(vt.PubHex(vt.Key(5)))
		if err := json.Unmarshal(js, held); err != nil { // into a variable that held another key
			rt.Fatalf("json: %v", err)
		}
		if bytes.Contains(js, []byte(hex.EncodeToString(kb))) {
			rt.Fatalf("JSON of the key reveals the private key")
		}
		sig1, err := fcrcrypto.SignMessage(key, vt.Ver(1), msg)
		if err != nil {
			rt.Fatalf("sign: %v", err)
		}
		sig2, err := fcrcrypto.SignMessage(rk, vt.Ver(1), msg)
		if err != nil {
			rt.Fatalf("sign: %v", err)
		}
		for name, k := range map[string]*fcrcrypto.KeyPair{"key": key, "raw": rk, "pub": pub, "json": &jk, "json over another key": held} {
			mustVerify(rt, name, k, sig1, msg, true)
			mustVerify(rt, name, k, sig2, msg, true)
			if vt.PubHex(k) != vt.PubHex(key) {
				rt.Fatalf("%s has another public key", name)
			}
			id2, err := nodeid.NewNodeIDFromPublicKey(k)
			if err != nil || id2.ToString() != id.ToString() {
				rt.Fatalf("%s has node id %v, want %s", name, id2, id.ToString())
			}
			h1, _ := k.HashPublicKey()
			h2, _ := key.HashPublicKey()
			if !bytes.Equal(h1, h2) {
				rt.Fatalf("%s hashes differently", name)
			}
		}
		rawSig, err := key.Sign(msg)
		if err != nil {
			rt.Fatalf("sign: %v", err)
		}
		h, _ := key.HashPublicKey()
		ok, err := fcrcrypto.RetrievalV1Verify(rawSig, msg, h)
		if err != nil || !ok {
			rt.Fatalf("RetrievalV1Verify rejects a genuine signature: %v %v", ok, err)
		}
		h[rapid.IntRange(0, len(h)-1).Draw(rt, "hpos")] ^= 1
		if ok, _ := fcrcrypto.RetrievalV1Verify(rawSig, msg, h); ok {
			rt.Fatalf("RetrievalV1Verify accepts another public key hash")
		}
		h, _ = key.HashPublicKey()
		m2 := mutate(rt, msg)
		if !bytes.Equal(m2, msg) {
			if ok, _ := fcrcrypto.RetrievalV1Verify(rawSig, m2, h); ok {
				rt.Fatalf("RetrievalV1Verify accepts another message")
			}
		}
		// key versions
		v := rapid.Uint32().Draw(rt, "ver")
		kv, err := fcrcrypto.DecodeKeyVersionFromBytes(vt.Ver(v).EncodeKeyVersionAsBytes())
		if err != nil || kv.EncodeKeyVersion() != v || !kv.EqualsRaw(v) || kv.NotEqualsRaw(v) {
			rt.Fatalf("key version %d comes back as %v, %v", v, kv, err)
		}
		w := rapid.OneOf(rapid.Uint32(), rapid.Just(v), rapid.Map(rapid.IntRange(0, 31), func(b int) uint32 { return v ^ 1<<b })).Draw(rt, "ver2")
		if kv.Equals(vt.Ver(w)) != (v == w) || kv.NotEquals(vt.Ver(w)) != (v != w) || kv.EqualsRaw(w) != (v == w) || kv.NotEqualsRaw(w) != (v != w) {
			rt.Fatalf("key version equality of %d and %d is wrong", v, w)
		}
		if v != 1<<32-1 {
			if n := vt.Ver(v).NextKeyVersion(); n.EncodeKeyVersion() <= v {
				rt.Fatalf("version after %d is %d", v, n.EncodeKeyVersion())
			}
		}
	})
}

func TestK01_GeneratedKeys(t *testing.T) {
	seen := map[string]bool{}
	vt.Check(t, 150, func(rt *rapid.T, c *vt.Case) {
		msg := message().Draw(rt, "msg")
		key, err := fcrcrypto.GenerateRetrievalV1KeyPair()
		if rapid.Bool().Draw(rt, "blockchain") {
			key, err = fcrcrypto.GenerateBlockchainKeyPair()
		}
		if err != nil {
			rt.Fatalf("generate: %v", err)
		}
		enc := key.EncodePrivateKey()
		if seen[enc] {
			rt.Fatalf("private key generated twice")
		}
		seen[enc] = true
		c.Addf("msg=%s", brief(msg))
		c.NonTrivial("generated key")
		k2, err := fcrcrypto.DecodePrivateKey(enc)
		if err != nil {
			rt.Fatalf("generated key does not decode: %v", err)
		}
		sig, err := fcrcrypto.SignMessage(k2, fcrcrypto.InitialKeyVersion(), msg)
		if err != nil {
			rt.Fatalf("sign: %v", err)
		}
		mustVerify(rt, "generated", vt.Pub(key), sig, msg, true)
	})
}

func TestK01_Malformed(t *testing.T) {
	good := vt.Key(3)
	goodPub := vt.PubHex(good)
	vt.Check(t, 2500, func(rt *rapid.T, c *vt.Case) {
		var s string
		switch rapid.IntRange(0, 4).Draw(rt, "kind") {
		case 0:
			s = hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(rt, "raw"))
		case 1:
			s = rapid.String().Draw(rt, "str")
		case 2:
			b, _ := hex.DecodeString(rapid.SampledFrom([]string{goodPub, good.EncodePrivateKey()}).Draw(rt, "base"))
			s = hex.EncodeToString(mutate(rt, b))
		case 3:
			s = rapid.SampledFrom([]string{"", "0", "00", "01", "02", "ff", "0100", "01" + hex.EncodeToString(make([]byte, 32)), "01" + hex.EncodeToString(make([]byte, 65)), "01" + curveN.Text(16), hex.EncodeToString(make([]byte, 33)), hex.EncodeToString(make([]byte, 66)), goodPub + "0", "0x" + goodPub}).Draw(rt, "special")
		default:
			s = string(mutate(rt, []byte(goodPub)))
		}
		c.Addf("%q", s)
		c.NonTrivial("malformed")
		raw, hexErr := hex.DecodeString(s)
		isPriv := hexErr == nil && len(raw) == 33 && raw[0] == 1
		isPub := hexErr == nil && len(raw) == 66 && raw[0] == 1
		p := vt.NoPanic(func() {
			k, err := fcrcrypto.DecodePrivateKey(s)
			if err == nil {
				if !isPriv {
					rt.Fatalf("DecodePrivateKey accepted %q", s)
				}
				if k.EncodePrivateKey() != hex.EncodeToString(raw) {
					rt.Fatalf("DecodePrivateKey(%q) encodes as %q", s, k.EncodePrivateKey())
				}
				if _, err := k.EncodePublicKey(); err != nil {
					rt.Fatalf("accepted private key has no public key: %v", err)
				}
			}
			k, err = fcrcrypto.DecodePublicKey(s)
			if err == nil {
				if !isPub {
					rt.Fatalf("DecodePublicKey accepted %q", s)
				}
				if e, err := k.EncodePublicKey(); err != nil || e != hex.EncodeToString(raw) {
					rt.Fatalf("DecodePublicKey(%q) encodes as %q, %v", s, e, err)
				}
				if ok, _ := fcrcrypto.VerifyMessage(k, "00000001"+hex.EncodeToString(make([]byte, 65)), []byte("x")); ok {
					rt.Fatalf("zero signature verifies")
				}
			}
			k, err = fcrcrypto.DecodeRawPrivateKey(s)
			if err == nil {
				if hexErr != nil || len(raw) != 32 {
					rt.Fatalf("DecodeRawPrivateKey accepted %q", s)
				}
				if _, err := k.EncodePublicKey(); err != nil {
					rt.Fatalf("accepted private key has no public key: %v", err)
				}
			}
			kv, err := fcrcrypto.ExtractKeyVersionFromMessage(s)
			if err == nil && (hexErr != nil || (len(raw) > 0 && len(raw) < 4)) {
				rt.Fatalf("ExtractKeyVersionFromMessage accepted %q: %v", s, kv)
			}
			if err == nil && len(raw) >= 4 && !bytes.Equal(kv.EncodeKeyVersionAsBytes(), raw[:4]) {
				rt.Fatalf("key version of %q is %v", s, kv)
			}
			if ok, err := fcrcrypto.VerifyMessage(good, s, []byte("message")); ok {
				rt.Fatalf("malformed signature %q verifies", s)
			} else if hexErr != nil && err == nil {
				rt.Fatalf("malformed signature %q gives no error", s)
			}
			if v, err := fcrcrypto.DecodeKeyVersionFromBytes(raw); err == nil && len(raw) < 4 {
				rt.Fatalf("key version from %x is %v", raw, v)
			}
			var jk fcrcrypto.KeyPair
			q, _ := json.Marshal(s)
			if json.Unmarshal(q, &jk) == nil && !isPub {
				rt.Fatalf("key JSON %s accepted", q)
			}
			if rapid.Bool().Draw(rt, "rawjson") && json.Unmarshal([]byte(s), &jk) == nil {
				if _, err := jk.EncodePublicKey(); err != nil {
					rt.Fatalf("key JSON %q accepted but unusable", s)
				}
			}
			fcrcrypto.RetrievalV1Verify(raw, []byte("message"), raw)
		})
		if p != "" {
			rt.Fatalf("input %q: %s", s, p)
		}
	})
}

// One key pair used by several threads at once, for everything it can do: each thread gets what a key pair
// of its own gives.
func TestK01_Concurrent(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		kb := privBytes().Draw(rt, "key")
		decode := func() *fcrcrypto.KeyPair {
			k, err := fcrcrypto.DecodePrivateKey("01" + hex.EncodeToString(kb))
			if err != nil {
				rt.Fatalf("valid private key %x refused: %v", kb, err)
			}
			return k
		}
		own, shared := decode(), decode()
		kind := "private"
		pub := vt.PubHex(own)
		priv := own.EncodePrivateKey()
		hash, err := own.HashPublicKey()
		if err != nil {
			rt.Fatalf("hash: %v", err)
		}
		msg := message().Draw(rt, "msg")
		sig, err := fcrcrypto.SignMessage(own, vt.Ver(1), msg)
		if err != nil {
			rt.Fatalf("sign: %v", err)
		}
		if rapid.Bool().Draw(rt, "public only") {
			kind, shared = "public", vt.Pub(own)
		}
		workers := rapid.IntRange(2, 6).Draw(rt, "workers")
		bads := make([]string, workers)
		var fns []func()
		for w := 0; w < workers; w++ {
			w := w
			plan := rapid.SliceOfN(rapid.IntRange(0, 4), 1, 5).Draw(rt, "plan")
			c.Addf("%s %v", kind, plan)
			fns = append(fns, func() {
				for _, op := range plan {
					ok := true
					switch op {
					case 0:
						s, err := shared.EncodePublicKey()
						ok = err == nil && s == pub
					case 1:
						h, err := shared.HashPublicKey()
						ok = err == nil && bytes.Equal(h, hash)
					case 2:
						v, err := fcrcrypto.VerifyMessage(shared, sig, msg)
						ok = err == nil && v
					case 3:
						if kind == "private" {
							s, err := fcrcrypto.SignMessage(shared, vt.Ver(1), msg)
							ok = err == nil
							if ok {
								v, err := fcrcrypto.VerifyMessage(shared, s, msg)
								ok = err == nil && v && shared.EncodePrivateKey() == priv
							}
						}
					case 4:
						b, err := json.Marshal(shared)
						ok = err == nil && string(b) == `"`+pub+`"`
					}
					if !ok {
						bads[w] = fmt.Sprintf("a %s key used by %d threads fails at operation %d", kind, workers, op)
					}
				}
			})
		}
		if f := vt.Parallel("one key, many threads", fns...); len(f) > 0 {
			rt.Fatalf("%s", f[0])
		}
		for _, b := range bads {
			if b != "" {
				rt.Fatalf("%s", b)
			}
		}
		c.NonTrivial("shared by threads")
	})
}
