package verifharness

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"html"
	"math/rand"
	"net/url"
	"strings"
	"testing"
	"unicode/utf8"
)

// Strings that careless comparing, cutting, cleaning, folding or encoding takes for one another,
// each tried in each place where the library takes a string.

func swapCase(o string) string {
	b := []byte(o)
	for i, c := range b {
		if l := c | 0x20; l >= 'a' && l <= 'z' {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

func nearlyAll(o string) []string {
	out := []string{strings.ToUpper(o), strings.ToLower(o), strings.Title(o), swapCase(o), //nolint:staticcheck
		o + " ", " " + o, o + "\n", o + "\r\n", o + "\t", o + "\x00", "\x00" + o, o + "\x00x", o + "\u00a0", "\ufeff" + o, o + "\u200b", o + "/", "/" + o, "./" + o, o + ".", o + ",", o + ";", o + ":", o + "*", o + "%", o + "0", "0" + o, "+" + o, "-" + o,
		o + o, o + "," + o, o + ":x", "x:" + o, o + "/x", "x/" + o, o + "\nx", "x\n" + o, o + ",x", "x," + o, o + "x", "x" + o, "{" + o + "}", "[" + o + "]", `"` + o + `"`, "'" + o + "'", "(" + o + ")", "urn:uuid:" + o,
		"*", "", " ", "null", ".", "%", "?",
		strings.ReplaceAll(o, "-", ""), strings.ReplaceAll(o, "-", "_"), strings.ReplaceAll(o, " ", ""), strings.ReplaceAll(o, " ", "  "), strings.TrimSpace(o), strings.Trim(o, "\x00"), strings.TrimLeft(o, "0"), strings.ToValidUTF8(o, "\ufffd"), strings.ToValidUTF8(o, ""),
		url.QueryEscape(o), url.PathEscape(o), html.EscapeString(o), hex.EncodeToString([]byte(o)), base64.StdEncoding.EncodeToString([]byte(o)), fmt.Sprintf("%q", o),
		o + strings.Repeat("y", 64), o + strings.Repeat("y", 256) + "1"}
	for _, p := range [][2]string{{"é", "e\u0301"}, {"e\u0301", "é"}, {"k", "\u212a"}, {"K", "\u212a"}, {"s", "\u017f"}, {"S", "\u017f"}, {"ß", "ss"}, {"ß", "SS"}, {"i", "\u0131"}, {"I", "\u0130"}, {"a", "\u0430"}, {"o", "0"}, {"l", "1"}, {"\xff", "\xfe"}, {"\xff", "\ufffd"}, {"<", "\\u003c"}, {"/", "\\/"}, {"\u2028", "\\u2028"}} {
		if strings.Contains(o, p[0]) {
			out = append(out, strings.ReplaceAll(o, p[0], p[1]), strings.Replace(o, p[0], p[1], 1))
		}
	}
	if n := len(o); n > 0 {
		b := []byte(o)
		at := func(i int, x byte) { c := append([]byte{}, b...); c[i] ^= x; out = append(out, string(c)) }
		for _, i := range []int{0, n - 1, n / 2, n / 3} {
			at(i, 1)
			at(i, 0x20)
			at(i, 0x80)
		}
		for _, i := range []int{1, 2, 4, 8, 16, 24, 32, 64, 128, 255} {
			if i < n {
				out = append(out, o[:i], o[i:], o[:i]+"~"+o[i+1:])
			}
		}
		out = append(out, o[:n-1], o[1:], o[:n/2], o[n/2:], o[n/2:]+o[:n/2])
		rev := append([]byte{}, b...)
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		out = append(out, string(rev))
		if n > 1 {
			out = append(out, string(append([]byte{b[1], b[0]}, b[2:]...)))
		}
	}
	if !utf8.ValidString(o) {
		out = append(out, strings.ToValidUTF8(o, "?"))
	}
	seen := map[string]bool{o: true}
	res := []string{}
	for _, v := range out {
		if !seen[v] {
			seen[v] = true
			res = append(res, v)
		}
	}
	return res
}

var nearBases = []string{"Alice", "KeyKeeper", "Straße", "café", "e\u0301t\u00e9", "İstanbul Iıi", "a\xffb\xfe", "0070", "group a", "a:b/c,d", "<b>&\"x\"</b>", "\u2028line", "\x00nul\x00", " padded ", "日本語", "😀😀", strings.Repeat("n", 64) + "1", strings.Repeat("m", 255), strings.Repeat("LoNg", 300), "x", "S", "%2e%41", "null", "{}", "admin"}

func uuidLike(r *rand.Rand) string {
	return fmt.Sprintf("%08x-%04x-4%03x-a%03x-%012x", r.Uint32(), r.Intn(1<<16), r.Intn(1<<12), r.Intn(1<<12), r.Int63n(1<<47))
}

func TestObjectsNear(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	r := newRand(360000)
	bases := append([]string{uuidLike(r), uuidLike(r)}, nearBases...)
	for k, base := range bases {
		for part := 0; part < 2; part++ {
			s := newObjSys(newRand(int64(360001 + k)))
			s.names.bind("me", "owner")
			s.names.bind("other", "somebody")
			s.names.bind("g", base)
			var vs []string
			for i, v := range nearlyAll(base) {
				if v != "owner" && v != "somebody" && i%2 == part {
					vs = append(vs, s.names.add(v))
				}
			}
			oid := s.call(ObjEv{Op: "Encrypt", Ident: s.all("me"), Pay: s.newPay(), Ad: s.newAd(), Gs: []string{"g"}}).Oid
			for i, v := range vs {
				// none of them is the listed one
				s.call(ObjEv{Op: "Decrypt", Ident: s.all(v), Oid: oid})
				s.call(ObjEv{Op: pick(s.r, []string{"AuthorizeIdentity", "GetAccessGroups", "Delete"}), Ident: s.all("other", v), Oid: oid})
				if i%4 == 0 {
					s.call(ObjEv{Op: "AuthorizeIdentity", Ident: s.all("g"), Oid: oid})
					s.call(ObjEv{Op: "Decrypt", Ident: s.all("other", "g"), Oid: oid})
				}
				// listed as well, it is one of its own
				s.call(ObjEv{Op: "AddGroupsToAccess", Ident: s.all("me"), Oid: oid, Gs: []string{v}})
				s.call(ObjEv{Op: "AuthorizeIdentity", Ident: s.all(v), Oid: oid})
				s.call(ObjEv{Op: "GetAccessGroups", Ident: s.all("me"), Oid: oid})
				// removing it or the other leaves the rest
				x, y := v, "g"
				if i%3 == 0 {
					x, y = y, x
				}
				s.call(ObjEv{Op: "RemoveGroupsFromAccess", Ident: s.all("me"), Oid: oid, Gs: []string{x}})
				s.call(ObjEv{Op: "AuthorizeIdentity", Ident: s.all(y), Oid: oid})
				s.call(ObjEv{Op: "AuthorizeIdentity", Ident: s.all("other", x), Oid: oid})
				s.call(ObjEv{Op: "AddGroupsToAccess", Ident: s.all("me"), Oid: oid, Gs: []string{"g"}})
				s.call(ObjEv{Op: "RemoveGroupsFromAccess", Ident: s.all("me"), Oid: oid, Gs: []string{v}})
				// the right scope for the one, the right entry for the other
				split := s.all(v)
				split.Gr = []GrpEnt{{"g", []string{}}}
				s.call(ObjEv{Op: "Decrypt", Ident: split, Oid: oid})
			}
			s.call(ObjEv{Op: "GetAccessGroups", Ident: s.all("me"), Oid: oid})
			sink.put("seq", fmt.Sprintf("near %q", base), s.ev)
		}
	}
}

func TestIndexNear(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	r := newRand(361000)
	bases := append([]string{uuidLike(r), uuidLike(r)}, nearBases...)
	for k, base := range bases {
		for _, what := range []string{"keywords", "identifiers"} {
			s := newIdxSys(newRand(int64(361001 + k)))
			s.kws.bind("k", base)
			s.ids.bind("i", base)
			var ks, is []string
			for _, v := range nearlyAll(base) {
				ks = append(ks, s.kws.add(v))
				is = append(is, s.ids.add(v))
			}
			if what == "keywords" {
				s.do("Add", "k", "i")
				for _, x := range ks {
					s.do("Search", x, "")
					if s.r.Intn(2) == 0 {
						s.do("Delete", x, "i")
					}
					if s.r.Intn(2) == 0 {
						s.do("Add", x, pick(s.r, is))
					}
				}
				s.do("Add", "k", "i")
				for _, x := range ks {
					s.do("Search", x, "")
				}
			} else {
				s.do("Add", "k", "i")
				for j, x := range is {
					s.do("Delete", "k", x)
					s.do("Search", "k", "")
					s.do("Add", "k", x)
					s.do("Add", "k", "i")
					switch j % 3 {
					case 0:
						s.do("Delete", "k", "i")
						s.do("Search", "k", "")
						s.do("Delete", "k", x)
						s.do("Add", "k", "i")
					case 1:
						s.do("Delete", "k", x)
						s.do("Search", "k", "")
						s.do("Delete", "k", "i")
						s.do("Add", "k", "i")
					default:
						s.do("Search", "k", "")
						s.do("Delete", "k", "i")
						s.do("Delete", "k", x)
						s.do("Search", "k", "")
						s.do("Add", "k", "i")
					}
				}
			}
			s.do("Search", "k", "")
			sink.put("seq", fmt.Sprintf("near %s %q", what, base), s.ev)
		}
	}
}

func TestIdpNear(t *testing.T) {
	sink := newSink(t)
	defer sink.close(t)
	parallel(t, tier(8, 60), func(t *testing.T, k int) {
		s := newIdpSys(newRand(int64(362000 + k)))
		a := s.call(idpArg{op: "NewUser", sc: scopeNames}).Uid
		b := s.call(idpArg{op: "NewUser", sc: s.randScopes()}).Uid
		c := s.call(idpArg{op: "NewUser", sc: s.randScopes()}).Uid
		ta, tb := s.mint(a), s.mint(b)
		g := s.call(idpArg{op: "NewGroup", tok: ta, sc: s.randScopes()}).Gid
		h := s.call(idpArg{op: "NewGroup", tok: s.mint(c), sc: s.randScopes()}).Gid
		s.call(idpArg{op: "AddUserToGroups", tok: ta, uid: b, gs: []string{g}})
		vg := append(nearlyAll(s.gids.val(g)), s.uids.val(a), s.uids.val(b), strings.ToUpper(s.gids.val(h)))
		for _, v := range vg {
			x := s.gidName(v)
			s.call(idpArg{op: pick(s.r, []string{"AddUserToGroups", "RemoveUserFromGroups"}), tok: ta, uid: pick(s.r, []string{a, b, c}), gs: [][]string{{x}, {g, x}, {x, g}}[s.r.Intn(3)]})
			s.look([]string{ta, tb})
		}
		vu := append(nearlyAll(s.uids.val(b)), s.gids.val(g))
		slow := map[int]bool{}
		for i := 0; i < tier(12, len(vu)); i++ {
			slow[s.r.Intn(len(vu))] = true
		}
		for i, v := range vu {
			x := s.uidName(v)
			s.call(idpArg{op: pick(s.r, []string{"AddUserToGroups", "RemoveUserFromGroups", "DeleteUser"}), tok: ta, uid: x, gs: []string{g}})
			s.call(idpArg{op: "GetIdentity", tok: s.mint(x)})
			if slow[i] || i%8 == k%8 {
				s.call(idpArg{op: pick(s.r, []string{"Login", "ChangePw"}), uid: x, pw: s.pw(b)})
			}
			if i%5 == 0 {
				s.look([]string{ta, tb})
			}
		}
		pws := nearlyAll(s.pw(b))
		for i, p := range pws {
			if i%8 == k%8 || k%8 == 7 && i%3 == 0 {
				s.call(idpArg{op: pick(s.r, []string{"Login", "ChangePw"}), uid: b, pw: p})
			}
		}
		s.call(idpArg{op: "Login", uid: b, pw: s.pw(b)})
		s.look([]string{ta, tb})
		sink.put("seq", "near", s.ev)
	})
}
