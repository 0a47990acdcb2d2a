package vtpay

import (
	"bytes"
	"encoding/base64"
	"math/big"

	"github.com/filecoin-project/go-address"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/chain/types"
	"github.com/filecoin-project/lotus/lib/sigs"
	"github.com/filecoin-project/specs-actors/actors/builtin/paych"
)

// Voucher signs a voucher.
func Voucher(w *Wallet, ch address.Address, lane, nonce uint64, total *big.Int) string {
	sv := &paych.SignedVoucher{ChannelAddr: ch, Lane: lane, Nonce: nonce, Amount: types.BigInt{Int: new(big.Int).Set(total)}}
	vb, err := sv.SigningBytes()
	if err != nil {
		panic(err)
	}
	sig, err := sigs.Sign(crypto2.SigTypeSecp256k1, w.Raw, vb)
	if err != nil {
		panic(err)
	}
	sv.Signature = sig
	var buf bytes.Buffer
	if err := sv.MarshalCBOR(&buf); err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString(buf.Bytes())
}

// Read decodes a voucher.
func Read(v string) (*paych.SignedVoucher, error) {
	b, err := base64.RawURLEncoding.DecodeString(v)
	if err != nil {
		return nil, err
	}
	sv := &paych.SignedVoucher{}
	return sv, sv.UnmarshalCBOR(bytes.NewReader(b))
}

// Purse pays one recipient out of a channel that is already on the chain.
type Purse struct {
	w     *Wallet
	Ch    *Channel
	lane  uint64
	nonce uint64
	total *big.Int
}

// NewPurse opens a channel with a lot in it.
func NewPurse(l *Lotus, from, to *Wallet) *Purse {
	return &Purse{w: from, Ch: l.Open(from, to, new(big.Int).Lsh(big.NewInt(1), 100)), total: new(big.Int)}
}

// Lane is another lane of the same channel.
func (p *Purse) Lane(n uint64) *Purse { return &Purse{w: p.w, Ch: p.Ch, lane: n, total: new(big.Int)} }

// Pay returns the channel and a voucher worth the amount.
func (p *Purse) Pay(amount *big.Int) (string, string) {
	p.total = new(big.Int).Add(p.total, amount)
	v := Voucher(p.w, p.Ch.Addr, p.lane, p.nonce, p.total)
	p.nonce++
	return p.Ch.Addr.String(), v
}
