package verifrt

import (
	"context"
	"errors"
	"io"

	golangproto "github.com/gogo/protobuf/proto"

	"github.com/cosmos/cosmos-sdk/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/cosmos/cosmos-sdk/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/tendermint/tendermint/libs/log"
)

// ---------- stores

// KV is an ordered byte map, possibly a cache on top of another one.
type KV struct {
	parent *KV
	m      map[string][]byte // nil: deleted
	keys   []string          // insertion order of the keys of m
	name   string
}

func newKV(parent *KV, name string) *KV {
	return &KV{parent: parent, m: map[string][]byte{}, name: name}
}

func (s *KV) Get(key []byte) []byte {
	types.AssertValidKey(key)
	k := string(key)
	for p := s; p != nil; p = p.parent {
		if v, ok := p.m[k]; ok {
			return v
		}
	}
	return nil
}

func (s *KV) Has(key []byte) bool { return s.Get(key) != nil }

func (s *KV) Set(key, value []byte) {
	types.AssertValidKey(key)
	if value == nil {
		if !IsProtoZero(value) || value == nil {
			value = []byte{}
		}
	}
	s.put(string(key), value)
}

func (s *KV) put(k string, v []byte) {
	if _, ok := s.m[k]; !ok {
		s.keys = append(s.keys, k)
	}
	s.m[k] = v
}

func (s *KV) Delete(key []byte) {
	types.AssertValidKey(key)
	s.put(string(key), nil)
}

func (s *KV) Iterator(start, end []byte) sdk.Iterator        { return s.iter(start, end, false) }
func (s *KV) ReverseIterator(start, end []byte) sdk.Iterator { return s.iter(start, end, true) }

func (s *KV) iter(start, end []byte, rev bool) sdk.Iterator {
	var ks []string
	seen := map[string]bool{}
	for p := s; p != nil; p = p.parent {
		for _, k := range p.keys {
			if start != nil && k < string(start) {
				continue
			}
			if end != nil && k >= string(end) {
				continue
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			ks = append(ks, k)
		}
	}
	// order
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0; j-- {
			if rev {
				if ks[j] > ks[j-1] {
					ks[j], ks[j-1] = ks[j-1], ks[j]
					continue
				}
			} else if ks[j] < ks[j-1] {
				ks[j], ks[j-1] = ks[j-1], ks[j]
				continue
			}
			break
		}
	}
	it := &Iter{start: start, end: end}
	for _, k := range ks {
		if v := s.Get([]byte(k)); v != nil {
			it.ks = append(it.ks, k)
			it.vs = append(it.vs, v)
		}
	}
	return it
}

func (s *KV) Write() {
	if s.parent == nil {
		return
	}
	for _, k := range s.keys {
		s.parent.put(k, s.m[k])
	}
	s.keys = nil
	s.m = map[string][]byte{}
}

func (s *KV) GetStoreType() types.StoreType { return types.StoreTypeIAVL }
func (s *KV) CacheWrap() types.CacheWrap    { return newKV(s, s.name) }
func (s *KV) CacheWrapWithTrace(w io.Writer, tc types.TraceContext) types.CacheWrap {
	return newKV(s, s.name)
}

type Iter struct {
	ks         []string
	vs         [][]byte
	i          int
	start, end []byte
}

func (it *Iter) Domain() ([]byte, []byte) { return it.start, it.end }
func (it *Iter) Valid() bool              { return it.i < len(it.ks) }
func (it *Iter) Next() {
	if it.i >= len(it.ks) {
		panic("iterator is invalid")
	}
	it.i++
}
func (it *Iter) Key() []byte {
	if it.i >= len(it.ks) {
		panic("iterator is invalid")
	}
	return []byte(it.ks[it.i])
}
func (it *Iter) Value() []byte {
	if it.i >= len(it.ks) {
		panic("iterator is invalid")
	}
	return it.vs[it.i]
}
func (it *Iter) Error() error { return nil }
func (it *Iter) Close() error { return nil }

// MS is a multi-store.
type MS struct {
	parent *MS
	stores map[string]*KV
	names  []string
}

func NewMS() *MS { return &MS{stores: map[string]*KV{}} }

func (m *MS) get(name string) *KV {
	if s, ok := m.stores[name]; ok {
		return s
	}
	var p *KV
	if m.parent != nil {
		p = m.parent.get(name)
	}
	s := newKV(p, name)
	m.stores[name] = s
	m.names = append(m.names, name)
	return s
}

func (m *MS) GetStoreType() types.StoreType { return types.StoreTypeMulti }
func (m *MS) CacheWrap() types.CacheWrap    { return &MS{parent: m, stores: map[string]*KV{}} }
func (m *MS) CacheWrapWithTrace(w io.Writer, tc types.TraceContext) types.CacheWrap {
	return m.CacheWrap()
}
func (m *MS) CacheMultiStore() types.CacheMultiStore {
	return &MS{parent: m, stores: map[string]*KV{}}
}
func (m *MS) CacheMultiStoreWithVersion(version int64) (types.CacheMultiStore, error) {
	return nil, errors.New("not modelled")
}
func (m *MS) GetStore(k types.StoreKey) types.Store                    { return m.get(k.Name()) }
func (m *MS) GetKVStore(k types.StoreKey) types.KVStore                { return m.get(k.Name()) }
func (m *MS) TracingEnabled() bool                                     { return false }
func (m *MS) SetTracer(w io.Writer) types.MultiStore                   { return m }
func (m *MS) SetTracingContext(tc types.TraceContext) types.MultiStore { return m }
func (m *MS) Write() {
	for _, n := range m.names {
		m.stores[n].Write()
	}
}

// M_KVStore models Context.KVStore: the store of the current multi-store, without gas accounting.
func M_KVStore(c sdk.Context, key types.StoreKey) types.KVStore {
	return c.MultiStore().GetKVStore(key)
}

func M_TransientStore(c sdk.Context, key types.StoreKey) types.KVStore {
	return c.MultiStore().GetKVStore(key)
}

// ---------- codecs: a serialised value is the (deep-copied) value itself

func M_ProtoMarshal(pc *codec.ProtoCodec, o codec.ProtoMarshaler) ([]byte, error) {
	return SymMarshal(o), nil
}
func M_ProtoMustMarshal(pc *codec.ProtoCodec, o codec.ProtoMarshaler) []byte { return SymMarshal(o) }
func M_ProtoUnmarshal(pc *codec.ProtoCodec, bz []byte, ptr codec.ProtoMarshaler) error {
	SymUnmarshal(bz, ptr, true)
	return nil
}
func M_ProtoMustUnmarshal(pc *codec.ProtoCodec, bz []byte, ptr codec.ProtoMarshaler) {
	SymUnmarshal(bz, ptr, true)
}
func M_JSONMarshal(pc *codec.ProtoCodec, o golangproto.Message) ([]byte, error) {
	return SymMarshal(o), nil
}
func M_JSONMustMarshal(pc *codec.ProtoCodec, o golangproto.Message) []byte { return SymMarshal(o) }
func M_JSONUnmarshal(pc *codec.ProtoCodec, bz []byte, ptr golangproto.Message) error {
	SymUnmarshalJSON(bz, ptr)
	return nil
}
func M_JSONMustUnmarshal(pc *codec.ProtoCodec, bz []byte, ptr golangproto.Message) {
	SymUnmarshalJSON(bz, ptr)
}
func M_MarshalInterface(pc *codec.ProtoCodec, i codec.ProtoMarshaler) ([]byte, error) {
	return SymMarshalIface(i), nil
}
func M_UnmarshalInterface(pc *codec.ProtoCodec, bz []byte, ptr interface{}) error {
	if bz == nil {
		return errors.New("unmarshal of nothing")
	}
	SymUnmarshalIface(bz, ptr)
	return nil
}
func M_AminoMarshal(a *codec.LegacyAmino, o interface{}) ([]byte, error) { return SymMarshal(o), nil }
func M_AminoUnmarshal(a *codec.LegacyAmino, bz []byte, ptr interface{}) error {
	if !IsBlob(bz) && len(bz) == 0 {
		return errors.New("unexpected end of JSON input")
	}
	SymUnmarshal(bz, ptr, false)
	return nil
}

// The text of a validator key: bech32 of the amino prefix, the length and the key.
func M_Bech32ifyPubKey(pkt sdk.Bech32PubKeyType, pk cryptotypes.PubKey) (string, error) {
	k, ok := pk.(*ed25519.PubKey)
	if !ok {
		return "", errors.New("only ed25519 keys are modelled")
	}
	pfx := ""
	switch pkt {
	case sdk.Bech32PubKeyTypeAccPub:
		pfx = sdk.GetConfig().GetBech32AccountPubPrefix()
	case sdk.Bech32PubKeyTypeValPub:
		pfx = sdk.GetConfig().GetBech32ValidatorPubPrefix()
	case sdk.Bech32PubKeyTypeConsPub:
		pfx = sdk.GetConfig().GetBech32ConsensusPubPrefix()
	}
	return bech32.ConvertAndEncode(pfx, append([]byte{0x16, 0x24, 0xde, 0x64, 0x20}, k.Key...))
}

func M_PubKeyFromBytes(bz []byte) (cryptotypes.PubKey, error) {
	if len(bz) != 37 || bz[0] != 0x16 || bz[1] != 0x24 || bz[2] != 0xde || bz[3] != 0x64 || bz[4] != 0x20 {
		return nil, errors.New("only ed25519 keys are modelled")
	}
	return &ed25519.PubKey{Key: bz[5:]}, nil
}

func M_ProtoPkgMarshal(o golangproto.Message) ([]byte, error) { return SymMarshal(o), nil }
func M_ProtoPkgUnmarshal(bz []byte, ptr golangproto.Message) error {
	SymUnmarshal(bz, ptr, false)
	return nil
}

// ---------- errors, contexts, logging

func M_ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

type fmtError struct {
	msg  string
	errs error
}

func (e *fmtError) Error() string { return e.msg }
func (e *fmtError) Unwrap() error { return e.errs }

func M_Errorf(format string, a ...interface{}) error {
	var w error
	for _, x := range a {
		if e, ok := x.(error); ok {
			w = e
		}
	}
	return &fmtError{format, w}
}

type valueCtx struct {
	context.Context
	key, val interface{}
}

func (c *valueCtx) Value(key interface{}) interface{} {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func M_WithValue(parent context.Context, key, val interface{}) context.Context {
	return &valueCtx{parent, key, val}
}

type nopLogger struct{}

func (nopLogger) Debug(string, ...interface{})     {}
func (nopLogger) Info(string, ...interface{})      {}
func (nopLogger) Error(string, ...interface{})     {}
func (l nopLogger) With(...interface{}) log.Logger { return l }

func NopLogger() log.Logger { return nopLogger{} }

// The two conversions which the cache of a store does without copying.
func M_StrToByte(s string) []byte { return []byte(s) }

func M_ByteSliceToStr(b []byte) string { return string(b) }
