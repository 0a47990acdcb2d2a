package vt

import (
	"encoding/hex"
	"math/big"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"pgregory.net/rapid"
)

// Two256 is the size of the identifier space.
var Two256 = new(big.Int).Lsh(big.NewInt(1), 256)

// ID32 generates 32-byte identifiers: small, near the top, near a power of two, sparse and random.
func ID32() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		b := make([]byte, 32)
		switch rapid.IntRange(0, 6).Draw(t, "idkind") {
		case 0: // small
			b[31] = byte(rapid.IntRange(0, 8).Draw(t, "lo"))
		case 1: // top
			for i := range b {
				b[i] = 0xff
			}
			b[31] = 0xff - byte(rapid.IntRange(0, 8).Draw(t, "hi"))
		case 2: // around the middle of the ring
			v := new(big.Int).Lsh(big.NewInt(1), 255)
			v.Add(v, big.NewInt(int64(rapid.IntRange(-4, 4).Draw(t, "mid"))))
			v.FillBytes(b)
		case 3: // power of two and its neighbours
			v := new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(2, 255).Draw(t, "bit")))
			v.Add(v, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "d"))))
			v.FillBytes(b)
		case 4: // coarse grid
			b[0] = byte(rapid.IntRange(0, 255).Draw(t, "b0"))
		default:
			copy(b, rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "raw"))
		}
		return b
	})
}

// Hex of a byte string.
func Hex(b []byte) string { return hex.EncodeToString(b) }

// CID builds a content id.
func CID(b []byte) *cid.ContentID {
	c, err := cid.NewContentIDFromBytes(b)
	if err != nil {
		panic("vt: cannot build content id: " + err.Error())
	}
	return c
}

// Node builds a node id.
func Node(b []byte) *nodeid.NodeID {
	c, err := nodeid.NewNodeIDFromBytes(b)
	if err != nil {
		panic("vt: cannot build node id: " + err.Error())
	}
	return c
}

// Key is a deterministic private key number i.
func Key(i int) *fcrcrypto.KeyPair {
	d := new(big.Int).SetInt64(int64(i) + 2)
	d.Exp(d, big.NewInt(61), nil)
	d.Mod(d, new(big.Int).Lsh(big.NewInt(1), 250))
	d.Add(d, big.NewInt(12345))
	b := make([]byte, 32)
	d.FillBytes(b)
	k, err := fcrcrypto.DecodePrivateKey("01" + hex.EncodeToString(b))
	if err != nil {
		panic(err)
	}
	return k
}

// PubHex of a key.
func PubHex(k *fcrcrypto.KeyPair) string {
	s, err := k.EncodePublicKey()
	if err != nil {
		panic(err)
	}
	return s
}

// Pub returns the public-only key pair of a key.
func Pub(k *fcrcrypto.KeyPair) *fcrcrypto.KeyPair {
	p, err := fcrcrypto.DecodePublicKey(PubHex(k))
	if err != nil {
		panic(err)
	}
	return p
}

// Ver builds a key version.
func Ver(v uint32) *fcrcrypto.KeyVersion { return fcrcrypto.DecodeKeyVersion(v) }

// Offer builds and signs an offer.
func Offer(key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion, provider *nodeid.NodeID, cids []cid.ContentID, price uint64, expiry int64, qos uint64) *cidoffer.CIDOffer {
	o, err := cidoffer.NewCIDOffer(provider, cids, price, expiry, qos)
	if err != nil {
		panic(err)
	}
	if err := o.Sign(key, ver); err != nil {
		panic(err)
	}
	return o
}

// SigOf signs bytes.
func SigOf(key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion, b []byte) string {
	s, err := fcrcrypto.SignMessage(key, ver, b)
	if err != nil {
		panic(err)
	}
	return s
}

// Uint64 generates boundary-heavy unsigned values.
func Uint64() *rapid.Generator[uint64] {
	return rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 2, 10, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}))
}

// Int64 generates boundary-heavy signed values.
func Int64() *rapid.Generator[int64] {
	return rapid.OneOf(rapid.Int64(), rapid.SampledFrom([]int64{0, 1, -1, 2, 1 << 31, -1 << 31, 1 << 53, 1<<53 + 1, 1<<63 - 1, -1 << 63}))
}

// FarExpiry generates expiry times clearly in the future.
func FarExpiry() *rapid.Generator[int64] {
	return rapid.OneOf(rapid.Int64Range(4102444800, 1<<40), rapid.SampledFrom([]int64{4102444800, 1 << 53, 1<<63 - 1}))
}

// PastExpiry generates expiry times clearly in the past.
func PastExpiry() *rapid.Generator[int64] {
	return rapid.OneOf(rapid.Int64Range(0, 1600000000), rapid.SampledFrom([]int64{0, 1, -1, 1600000000, -1 << 62}))
}
