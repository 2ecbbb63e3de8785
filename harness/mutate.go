package harness

import (
	"encoding/binary"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- corrupting encoded bytes

// tlv is one field of a message, as far as it looks like one.
type tlv struct {
	num  uint64
	wt   int
	val  []byte // without the length, for length-delimited fields
	subs []tlv  // parsed contents, if they look like a message
}

func parseTLVs(bz []byte, depth int) ([]tlv, bool) {
	var out []tlv
	for len(bz) > 0 {
		u, n := binary.Uvarint(bz)
		if n <= 0 || u>>3 == 0 || u>>3 >= 1<<29 {
			return nil, false
		}
		bz = bz[n:]
		f := tlv{num: u >> 3, wt: int(u & 7)}
		switch f.wt {
		case wVarint:
			_, n = binary.Uvarint(bz)
			if n <= 0 {
				return nil, false
			}
		case w8:
			n = 8
		case w4:
			n = 4
		case wBytes:
			l, k := binary.Uvarint(bz)
			if k <= 0 || l > uint64(len(bz)-k) {
				return nil, false
			}
			bz = bz[k:]
			n = int(l)
		default:
			return nil, false
		}
		if n > len(bz) {
			return nil, false
		}
		f.val = bz[:n]
		bz = bz[n:]
		if f.wt == wBytes && depth > 0 && len(f.val) > 1 {
			if s, ok := parseTLVs(f.val, depth-1); ok {
				f.subs = s
			} else if len(f.val) > 4 { // behind prefix bytes?
				if s, ok := parseTLVs(f.val[4:], depth-1); ok && len(s) > 0 {
					f.subs = nil
				}
			}
		}
		out = append(out, f)
	}
	return out, true
}

func writeTLVs(fs []tlv) (out []byte) {
	for _, f := range fs {
		out = append(out, key(f.num, f.wt)...)
		v := f.val
		if f.subs != nil {
			v = writeTLVs(f.subs)
		}
		if f.wt == wBytes {
			out = append(out, uvarint(uint64(len(v)))...)
		}
		out = append(out, v...)
	}
	return
}

var bigClaims = []uint64{1 << 26, 1 << 27, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 48, 1<<62 + 3, 1<<63 - 1, 1 << 63, 1<<64 - 1}

var oddVarints = [][]byte{{0}, {1}, {2}, {0x7f}, {0x80}, {0x80, 0x00}, {0x81, 0x00}, {0x80, 0x01}, {0xff, 0x01}, {0xff, 0xff, 0x03}, {0x80, 0x80, 0x04},
	{0xff, 0xff, 0xff, 0xff, 0x07}, {0x80, 0x80, 0x80, 0x80, 0x08}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x80, 0x80, 0x10},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
	{0x80, 0x80, 0x80, 0x80, 0xf8, 0xff, 0xff, 0xff, 0xff, 0x01}, {0xff, 0xff, 0xff, 0xff, 0xf7, 0xff, 0xff, 0xff, 0xff, 0x01},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}}

// corrupt changes bz in one or more ways and says how.
func corrupt(t *rapid.T, bz []byte) ([]byte, string) {
	out := append([]byte{}, bz...)
	how := ""
	for i, n := 0, 1+pick(t, 8, "nmut")/6; i < n; i++ {
		var h string
		out, h = corrupt1(t, out)
		if how == "" || how == "none" {
			how = h
		}
	}
	return out, how
}

// corruptAt corrupts the field list fs, which is changed in place.
func corruptTLV(t *rapid.T, fs []tlv) ([]tlv, string) {
	i := pick(t, len(fs), "field")
	if fs[i].subs != nil && pick(t, 3, "down") > 0 {
		s, h := corruptTLV(t, fs[i].subs)
		if s == nil {
			s = []tlv{}
		}
		fs[i].subs = s
		return fs, h
	}
	f := &fs[i]
	switch pick(t, 12, "tlvop") {
	case 0: // drop
		return append(append([]tlv{}, fs[:i]...), fs[i+1:]...), "drop-field"
	case 1: // repeat
		out := append([]tlv{}, fs[:i+1]...)
		return append(append(out, fs[i]), fs[i+1:]...), "repeat-field"
	case 2: // swap
		j := pick(t, len(fs), "with")
		fs[i], fs[j] = fs[j], fs[i]
		return fs, "swap-fields"
	case 3: // wire type
		f.wt = pickFrom(t, []int{0, 1, 2, 5, 3, 4, 6, 7}, "wt")
		f.subs = nil
		return fs, "wire-type"
	case 4: // number
		f.num = pickFrom(t, []uint64{f.num + 1, f.num - 1, 1, 2, 0, 15, 16, 100, 1<<29 - 1, 1 << 29}, "num")
		return fs, "field-number"
	case 5: // unknown field
		nf := tlv{num: fs[len(fs)-1].num + uint64(1+pick(t, 30, "far")), wt: pickFrom(t, []int{wVarint, w8, wBytes, w4}, "nwt")}
		switch nf.wt {
		case wVarint:
			nf.val = pickFrom(t, oddVarints, "v")
		case w8:
			nf.val = make([]byte, 8)
		case w4:
			nf.val = make([]byte, 4)
		default:
			nf.val = drawBytes(t, pick(t, 4, "l"))
		}
		if pick(t, 2, "where") == 0 {
			return append(fs, nf), "unknown-field"
		}
		out := append([]tlv{}, fs[:i]...)
		return append(append(out, nf), fs[i:]...), "unknown-field-inside"
	case 6: // contents cut
		if f.subs != nil {
			f.val, f.subs = writeTLVs(f.subs), nil
		}
		if len(f.val) > 0 {
			f.val = f.val[:pick(t, len(f.val), "cut")]
		}
		return fs, "cut-contents"
	case 7: // contents extended
		if f.subs != nil {
			f.val, f.subs = writeTLVs(f.subs), nil
		}
		ext := drawBytes(t, 1+pick(t, 4, "ext"))
		if pick(t, 3, "key") == 0 { // a key without a value, or a whole field
			ext = key(uint64(1+pick(t, 4, "num")), pickFrom(t, []int{wVarint, w8, wBytes, w4}, "kwt"))
			if pick(t, 2, "more") == 1 {
				ext = append(ext, make([]byte, pick(t, 9, "zeros"))...)
			}
		}
		f.val = append(append([]byte{}, f.val...), ext...)
		return fs, "extend-contents"
	case 8: // another varint
		if f.wt == wVarint {
			f.val = pickFrom(t, oddVarints, "v")
			return fs, "varint"
		}
		f.val, f.subs = append([]byte{}, pickFrom(t, oddVarints, "v")...), nil
		return fs, "varint-contents"
	case 9: // emptied
		f.val, f.subs = nil, nil
		return fs, "empty-contents"
	case 10: // one byte changed
		if f.subs != nil {
			f.val, f.subs = writeTLVs(f.subs), nil
		}
		if len(f.val) > 0 {
			v := append([]byte{}, f.val...)
			v[pick(t, len(v), "at")] = gByte.Draw(t, "b")
			f.val = v
		}
		return fs, "change-contents"
	default: // byte inserted in the contents
		if f.subs != nil {
			f.val, f.subs = writeTLVs(f.subs), nil
		}
		k := pick(t, len(f.val)+1, "at")
		v := append([]byte{}, f.val[:k]...)
		v = append(v, pickFrom(t, oddVarints, "ins")...)
		f.val = append(v, f.val[k:]...)
		return fs, "insert-contents"
	}
}

func corrupt1(t *rapid.T, bz []byte) ([]byte, string) {
	if pick(t, 3, "structured") > 0 {
		pre := 0
		fs, ok := parseTLVs(bz, 6)
		if !ok && len(bz) > 4 {
			pre = 4
			fs, ok = parseTLVs(bz[4:], 6)
		}
		if ok && len(fs) > 0 && len(fs) < 400 {
			fs, h := corruptTLV(t, fs)
			return append(append([]byte{}, bz[:pre]...), writeTLVs(fs)...), h
		}
	}
	n := len(bz)
	switch pick(t, 9, "rawop") {
	case 0: // truncate
		if n == 0 {
			return bz, "none"
		}
		return bz[:pick(t, n, "cut")], "truncate"
	case 1: // extend
		return append(bz, drawBytes(t, 1+pick(t, 4, "ext"))...), "extend"
	case 2: // flip a bit
		if n == 0 {
			return bz, "none"
		}
		bz[pick(t, n, "at")] ^= 1 << uint(pick(t, 8, "bit"))
		return bz, "flip"
	case 3: // set a byte
		if n == 0 {
			return bz, "none"
		}
		bz[pick(t, n, "at")] = pickFrom(t, []byte{0, 1, 0x7f, 0x80, 0xff, 0x0a, 0x08, 0x12, 0x10}, "b")
		return bz, "set"
	case 4: // delete a byte
		if n == 0 {
			return bz, "none"
		}
		k := pick(t, n, "at")
		return append(bz[:k:k], bz[k+1:]...), "delete"
	case 5: // insert
		k := pick(t, n+1, "at")
		ins := pickFrom(t, oddVarints, "ins")
		return append(append(append([]byte{}, bz[:k]...), ins...), bz[k:]...), "insert"
	case 6: // huge length
		k := pick(t, n+1, "at")
		ins := uvarint(pickFrom(t, bigClaims, "claim"))
		e := k
		if e < n {
			e++
		}
		return append(append(append([]byte{}, bz[:k]...), ins...), bz[e:]...), "huge"
	case 7: // splice
		if n < 2 {
			return bz, "none"
		}
		a, b := pick(t, n, "a"), pick(t, n, "b")
		return append(append([]byte{}, bz[:a]...), bz[b:]...), "splice"
	default: // replace the prefix
		k := pick(t, 5, "pre")
		if k > n {
			k = n
		}
		return append(drawBytes(t, pick(t, 5, "np")), bz[k:]...), "prefix"
	}
}

// soup draws bytes that look a little like messages.
func soup(t *rapid.T) []byte {
	var out []byte
	for i, n := 0, pick(t, 8, "nsoup"); i < n; i++ {
		switch pick(t, 7, "sk") {
		case 0:
			out = append(out, drawBytes(t, pick(t, 6, "n"))...)
		case 1:
			out = append(out, key(uint64(1+pick(t, 20, "num")), pickFrom(t, []int{0, 1, 2, 5, 3}, "wt"))...)
		case 2:
			out = append(out, pickFrom(t, oddVarints, "v")...)
		case 3:
			b := drawBytes(t, pick(t, 6, "n"))
			out = append(append(out, key(uint64(1+pick(t, 4, "num")), wBytes)...), wrap(b)...)
		case 4:
			out = append(append(out, key(uint64(1+pick(t, 4, "num")), wVarint)...), pickFrom(t, oddVarints, "v")...)
		case 5: // nest what there is
			out = append(key(uint64(1+pick(t, 4, "num")), wBytes), wrap(out)...)
		default:
			out = append(append(out, key(uint64(1+pick(t, 4, "num")), wBytes)...), uvarint(pickFrom(t, bigClaims, "claim"))...)
		}
	}
	return out
}
