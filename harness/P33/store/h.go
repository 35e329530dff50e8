package store

import (
	"crypto/rand"
	"errors"

	"github.com/sisu-network/dheart/verifrt"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
)

// The key value store on disk is modelled by a map.
var (
	verifDisk  map[string][]byte
	verifBroke bool
)

var verifErrDisk = errors.New("disk failure")

//verif:stub github.com/syndtr/goleveldb/leveldb.OpenFile
func verifOpenFile(path string, o *opt.Options) (*leveldb.DB, error) {
	if verifBroke {
		return nil, verifErrDisk
	}
	return &leveldb.DB{}, nil
}

//verif:stub (*github.com/syndtr/goleveldb/leveldb.DB).Put
func verifPut(db *leveldb.DB, key, value []byte, wo *opt.WriteOptions) error {
	if verifBroke {
		return verifErrDisk
	}
	verifDisk[string(key)] = append([]byte{}, value...)
	return nil
}

//verif:stub (*github.com/syndtr/goleveldb/leveldb.DB).Get
func verifGet(db *leveldb.DB, key []byte, ro *opt.ReadOptions) ([]byte, error) {
	if verifBroke {
		return nil, verifErrDisk
	}
	v, ok := verifDisk[string(key)]
	if !ok {
		return nil, leveldb.ErrNotFound
	}
	return append([]byte{}, v...), nil
}

type verifRand struct {
	out   []byte
	fails bool
}

func (r *verifRand) Read(b []byte) (int, error) {
	if r.fails && len(r.out) > 0 || len(b) == 0 {
		return 0, errors.New("no randomness")
	}
	if r.fails && len(b) > 5 {
		b = b[:5]
	}
	x := verifrt.Bytes("random", len(b))
	copy(b, x)
	r.out = append(r.out, x...)
	return len(b), nil
}

func verifSame(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verifrt.And(ok, a[i] == b[i])
	}
	return ok
}

// VerifStore: what is stored encrypted can be read with the key only and never harms the reader.
func VerifStore() {
	src := &verifRand{}
	rand.Reader = src
	verifDisk, verifBroke = make(map[string][]byte), verifrt.Choice("no disk", 2) == 1
	key := verifrt.Bytes("key", 16)
	s, err := NewStore("path", key)
	if verifBroke {
		verifrt.Assert(err != nil && s == nil, "a store without a disk is opened")
		verifrt.Reach("no disk")
		return
	}
	verifrt.Assert(err == nil, "the store cannot be opened")
	msg := verifrt.Bytes("msg", verifrt.Choice("len", 3))
	orig := append([]byte{}, msg...)
	other := verifrt.Bytes("other value", 1)
	switch verifrt.Choice("case", 7) {
	case 0: // read what was written, last value of that name
		verifrt.Assert(s.PutEncrypted([]byte("a"), other) == nil, "a text cannot be stored")
		verifrt.Assert(s.PutEncrypted([]byte("b"), other) == nil, "a text cannot be stored")
		verifrt.Assert(s.PutEncrypted([]byte("a"), msg) == nil, "a text cannot be stored")
		verifrt.Assume(len(src.out) != 36 || !verifSame(src.out[:12], src.out[24:]) && !verifSame(src.out[12:24], src.out[24:])) // as good as impossible
		got, err := s.GetEncrypted([]byte("a"))
		verifrt.Assert(err == nil && verifSame(got, orig), "another text is read than was stored")
		got, err = s.GetEncrypted([]byte("b"))
		verifrt.Assert(err == nil && verifSame(got, other), "another text is read than was stored")
		verifrt.Assert(verifSame(msg, orig), "the text is changed by storing it")
		verifrt.Assert(len(src.out) == 36, "a nonce is not random")
		enc := verifDisk["a"]
		verifrt.Assert(len(enc) == len(orig)+28 && verifSame(enc[:12], src.out[24:]), "a nonce is not random")
		verifrt.Reach("read")
	case 1: // nothing there
		_, err := s.GetEncrypted([]byte("a"))
		verifrt.Assert(err != nil, "a text that was never stored is read")
	case 2: // never encrypted
		verifDisk["a"] = verifrt.Bytes("rubbish", verifrt.Choice("rubbish len", verifrt.Param("len")+1))
		_, err := s.GetEncrypted([]byte("a"))
		verifrt.Assert(err != nil, "a text that was never encrypted is read")
		verifrt.Reach("rubbish")
	case 3: // the store of somebody else
		verifrt.Assert(s.PutEncrypted([]byte("a"), msg) == nil, "a text cannot be stored")
		k := verifrt.Bytes("other key", 16)
		verifrt.Assume(!verifSame(k, key))
		s2, _ := NewStore("path", k)
		_, err := s2.GetEncrypted([]byte("a"))
		verifrt.Assert(err != nil, "a text is read with another key")
		verifrt.Reach("other key")
	case 4: // disk fails
		verifrt.Assert(s.PutEncrypted([]byte("a"), msg) == nil, "a text cannot be stored")
		verifBroke = true
		verifrt.Assert(s.PutEncrypted([]byte("a"), msg) != nil, "a failure to store is not reported")
		_, err := s.GetEncrypted([]byte("a"))
		verifrt.Assert(err != nil, "a failure to read is not reported")
	case 5: // a key that is none
		s3, err := NewStore("path", key[:15])
		if err == nil {
			verifrt.Assert(s3.PutEncrypted([]byte("a"), msg) != nil, "a key of a wrong length is accepted")
			_, err := s3.GetEncrypted([]byte("a"))
			verifrt.Assert(err != nil, "a key of a wrong length is accepted")
			verifrt.Assert(len(verifDisk) == 0, "a text is stored without a key")
		}
	case 6: // too little randomness
		src.fails = true
		verifrt.Assert(s.PutEncrypted([]byte("a"), msg) != nil, "a text is encrypted without enough randomness")
		verifrt.Assert(len(verifDisk) == 0, "a text is stored without being encrypted")
		verifrt.Reach("no randomness")
	}
}
