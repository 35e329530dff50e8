package common

import "github.com/sisu-network/dheart/verifrt"

// verifComponent draws a component of a message key: up to max bytes, without the
// two-byte separator inside it and without an underscore at its end.
func verifComponent(name string, max int, sep bool) string {
	n := verifrt.Concrete(verifrt.Int(name+".len", 0, max))
	s := verifrt.Str(name, n)
	for i := 0; i < n; i++ {
		if i == 0 || i == n-1 {
			verifrt.Assume(s[i] != '_')
		}
		if i+1 < n {
			verifrt.Assume(verifrt.Or(s[i] != '_', s[i+1] != '_'))
		}
	}
	return s
}

// VerifKeyRoundTrip: the key names work, sender, destination and message, and
// these are what the asked node reads from it.
func VerifKeyRoundTrip() {
	m := verifrt.Param("len")
	w, f, t, y := verifComponent("work", m, true), verifComponent("from", m, true), verifComponent("to", m, true), verifComponent("type", m, true)
	keys, err := ExtractMessageKey(GetMessageKey(w, f, t, y))
	verifrt.Assert(err == nil, "a well-formed key is refused")
	verifrt.Assert(len(keys) == 4, "a key splits into the wrong number of parts")
	verifrt.Assert(verifrt.And(keys[0] == w, keys[1] == f), "work or sender changed")
	verifrt.Assert(verifrt.And(keys[2] == t, keys[3] == y), "destination or message name changed")
	verifrt.Reach("done")
}

// VerifKeyDistinct: two messages have the same key only if they agree in all
// four components.
func VerifKeyDistinct() {
	m := verifrt.Param("len")
	w, f, t, y := verifComponent("work", m, true), verifComponent("from", m, true), verifComponent("to", m, true), verifComponent("type", m, true)
	w2, f2, t2, y2 := verifComponent("work2", m, true), verifComponent("from2", m, true), verifComponent("to2", m, true), verifComponent("type2", m, true)
	same := GetMessageKey(w, f, t, y) == GetMessageKey(w2, f2, t2, y2)
	verifrt.Assert(!same || (w == w2 && f == f2 && t == t2 && y == y2), "two different messages share a key")
	verifrt.Reach("done")
}

// VerifMessageKey: the key of a message is built from its own fields.
func VerifMessageKey() {
	msg := &TssMessage{WorkId: verifrt.Str("w", 1), From: verifrt.Str("f", 1), To: verifrt.Str("t", verifrt.Concrete(verifrt.Int("tl", 0, 1)))}
	n := verifrt.Concrete(verifrt.Int("n", 0, 2))
	for i := 0; i < n; i++ {
		msg.UpdateMessages = append(msg.UpdateMessages, &UpdateMessage{Round: "R"})
	}
	k, err := msg.GetMessageKey()
	verifrt.Assert((err != nil) == (n == 0), "only a message without content has no key")
	if n > 0 {
		verifrt.Assert(k == GetMessageKey(msg.WorkId, msg.From, msg.To, "R"), "key not built from the message's fields")
	}
	verifrt.Assert(msg.IsBroadcast() == (len(msg.To) == 0), "a message is broadcast exactly if it has no destination")
	verifrt.Reach("done")
}

// VerifMalformedKey: any received key is either refused or yields at least
// four parts.
func VerifMalformedKey() {
	n := verifrt.Concrete(verifrt.Int("len", 0, verifrt.Param("raw")))
	k := verifrt.Str("key", n)
	parts, err := ExtractMessageKey(k)
	verifrt.Assert(err != nil || len(parts) >= 4, "a malformed key is accepted")
	verifrt.Reach("done")
}
