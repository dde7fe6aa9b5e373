// Package h holds the harnesses: each H... function states a property as assertions over symbolic inputs.
package h

import (
	"math"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// Kinds of SECS-II items in the reference model.
const (
	kL = iota
	kA
	kB
	kBool
	kI1
	kI2
	kI4
	kI8
	kU1
	kU2
	kU4
	kU8
	kF4
	kF8
	kNone // no item at all (header-only message)
	kBad
)

var kindCode = [...]byte{0, 0o20, 0o10, 0o11, 0o31, 0o32, 0o34, 0o30, 0o51, 0o52, 0o54, 0o50, 0o44, 0o40}
var kindSize = [...]int{1, 1, 1, 1, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8}
var kindName = [...]string{"list", "ascii", "binary", "boolean", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"}

// Item is the reference model of a SECS-II item: raw element bits, most significant byte first on the wire.
type Item struct {
	K int
	V []uint64 // elements of every kind but lists (ASCII: characters; BOOLEAN: 0 or 1)
	L []Item
}

func count(it Item) int {
	if it.K == kL {
		return len(it.L)
	}
	return len(it.V)
}

// refHeader is the reference item header: format code, minimal number of length bytes, length.
func refHeader(k, n int) []byte {
	length := n * kindSize[k]
	switch {
	case length < 1<<8:
		return []byte{kindCode[k]<<2 | 1, byte(length)}
	case length < 1<<16:
		return []byte{kindCode[k]<<2 | 2, byte(length >> 8), byte(length)}
	}
	return []byte{kindCode[k]<<2 | 3, byte(length >> 16), byte(length >> 8), byte(length)}
}

// refEncode is the reference SECS-II encoding (SEMI E5).
func refEncode(it Item) []byte {
	if it.K == kNone {
		return nil
	}
	out := refHeader(it.K, count(it))
	if it.K == kL {
		for _, c := range it.L {
			out = append(out, refEncode(c)...)
		}
		return out
	}
	sz := kindSize[it.K]
	for _, v := range it.V {
		for i := sz - 1; i >= 0; i-- {
			out = append(out, byte(v>>(8*uint(i))))
		}
	}
	return out
}

// refMessage is the reference HSMS data message (SEMI E37).
func refMessage(session, stream, function int, wait bool, sys []byte, it Item) []byte {
	body := refEncode(it)
	n := len(body) + 10
	b2 := byte(stream)
	if wait {
		b2 |= 0x80
	}
	out := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), byte(session >> 8), byte(session), b2, byte(function), 0, 0, sys[0], sys[1], sys[2], sys[3]}
	return append(out, body...)
}

func refControl(session int, b2, b3, stype byte, sys []byte) []byte {
	return []byte{0, 0, 0, 10, byte(session >> 8), byte(session), b2, b3, 0, stype, sys[0], sys[1], sys[2], sys[3]}
}

// refDecode decodes one item; n is the number of bytes used.
func refDecode(b []byte) (it Item, n int, ok bool) {
	if len(b) < 1 {
		return Item{K: kBad}, 0, false
	}
	nl := int(b[0] & 3)
	if nl == 0 || len(b) < 1+nl {
		return Item{K: kBad}, 0, false
	}
	k := -1
	code := b[0] >> 2
	for i := range kindCode {
		if kindCode[i] == code {
			k = i
		}
	}
	if k < 0 {
		return Item{K: kBad}, 0, false
	}
	length := 0
	for i := 0; i < nl; i++ {
		length = length<<8 | int(b[1+i])
	}
	n = 1 + nl
	it.K = k
	if k == kL {
		if length > len(b)-n { // every item takes at least two bytes
			return Item{K: kBad}, 0, false
		}
		for i := 0; i < length; i++ {
			c, m, ok := refDecode(b[n:])
			if !ok {
				return Item{K: kBad}, 0, false
			}
			it.L = append(it.L, c)
			n += m
		}
		return it, n, true
	}
	sz := kindSize[k]
	if length > len(b)-n || length%sz != 0 {
		return Item{K: kBad}, 0, false
	}
	for i := 0; i < length; i += sz {
		var v uint64
		for j := 0; j < sz; j++ {
			v = v<<8 | uint64(b[n+i+j])
		}
		if k == kBool && v != 0 {
			v = 1
		}
		it.V = append(it.V, v)
	}
	return it, n + length, true
}

// node builds the library's item for a reference item; values are passed as the natural Go type.
func node(it Item) ast.ItemNode {
	vals := make([]interface{}, 0, len(it.V))
	for _, v := range it.V {
		switch it.K {
		case kB:
			vals = append(vals, byte(v))
		case kBool:
			vals = append(vals, v&1 == 1)
		case kI1:
			vals = append(vals, int8(v))
		case kI2:
			vals = append(vals, int16(v))
		case kI4:
			vals = append(vals, int32(v))
		case kI8:
			vals = append(vals, int64(v))
		case kU1:
			vals = append(vals, uint8(v))
		case kU2:
			vals = append(vals, uint16(v))
		case kU4:
			vals = append(vals, uint32(v))
		case kU8:
			vals = append(vals, v)
		case kF4:
			vals = append(vals, math.Float32frombits(uint32(v)))
		case kF8:
			vals = append(vals, math.Float64frombits(v))
		}
	}
	switch it.K {
	case kL:
		for _, c := range it.L {
			vals = append(vals, node(c))
		}
		return ast.NewListNode(vals...)
	case kA:
		b := make([]byte, len(it.V))
		for i, v := range it.V {
			b[i] = byte(v)
		}
		return ast.NewASCIINode(string(b))
	case kB:
		return ast.NewBinaryNode(vals...)
	case kBool:
		return ast.NewBooleanNode(vals...)
	case kI1, kI2, kI4, kI8:
		return ast.NewIntNode(kindSize[it.K], vals...)
	case kU1, kU2, kU4, kU8:
		return ast.NewUintNode(kindSize[it.K], vals...)
	case kF4, kF8:
		return ast.NewFloatNode(kindSize[it.K], vals...)
	}
	return ast.NewEmptyItemNode()
}

func sext(v uint64, k int) int64 {
	switch k {
	case kI1:
		return int64(int8(v))
	case kI2:
		return int64(int16(v))
	case kI4:
		return int64(int32(v))
	}
	return int64(v)
}

func isFinite(v uint64, k int) bool {
	if k == kF4 {
		return v&0x7f800000 != 0x7f800000
	}
	return v&0x7ff0000000000000 != 0x7ff0000000000000
}

func isNaNBits(v uint64, k int) bool {
	if k == kF4 {
		return v&0x7f800000 == 0x7f800000 && v&0x7fffff != 0
	}
	return v&0x7ff0000000000000 == 0x7ff0000000000000 && v&0xfffffffffffff != 0
}

// same tells whether a library item is exactly the reference item.
func same(n ast.ItemNode, it Item) bool {
	if it.K == kNone {
		return n.Type() == "empty"
	}
	if n.Type() != kindName[it.K] || n.Size() != count(it) {
		return false
	}
	if len(n.Variables()) != 0 {
		return false
	}
	switch it.K {
	case kL:
		for i, c := range it.L {
			m, err := n.Get(i)
			if err != nil || !same(m, c) {
				return false
			}
		}
		return true
	case kA:
		s, ok := n.Values().(string)
		if !ok || len(s) != len(it.V) {
			return false
		}
		eq := true
		for i := range it.V {
			eq = vp.And(eq, s[i] == byte(it.V[i]))
		}
		return eq
	case kB:
		v, ok := n.Values().([]int)
		if !ok || len(v) != len(it.V) {
			return false
		}
		eq := true
		for i := range v {
			eq = vp.And(eq, v[i] == int(it.V[i]&0xff))
		}
		return eq
	case kBool:
		v, ok := n.Values().([]bool)
		if !ok || len(v) != len(it.V) {
			return false
		}
		eq := true
		for i := range v {
			eq = vp.And(eq, v[i] == (it.V[i]&1 == 1))
		}
		return eq
	case kI1, kI2, kI4, kI8:
		v, ok := n.Values().([]int64)
		if !ok || len(v) != len(it.V) {
			return false
		}
		eq := true
		for i := range v {
			eq = vp.And(eq, v[i] == sext(it.V[i], it.K))
		}
		return eq
	case kU1, kU2, kU4, kU8:
		v, ok := n.Values().([]uint64)
		if !ok || len(v) != len(it.V) {
			return false
		}
		eq := true
		for i := range v {
			eq = vp.And(eq, v[i] == it.V[i])
		}
		return eq
	case kF4, kF8:
		v, ok := n.Values().([]float64)
		if !ok || len(v) != len(it.V) {
			return false
		}
		eq := true
		for i := range v {
			var want float64
			if it.K == kF4 {
				want = float64(math.Float32frombits(uint32(it.V[i])))
			} else {
				want = math.Float64frombits(it.V[i])
			}
			eq = vp.And(eq, vp.Or(math.Float64bits(v[i]) == math.Float64bits(want), vp.And(v[i] != v[i], want != want)))
		}
		return eq
	}
	return false
}

// eqBytes compares without forking on the content.
func eqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = vp.And(eq, a[i] == b[i])
	}
	return eq
}

// vals draws n symbolic elements of kind k.
func vals(name string, k, n int) []uint64 {
	v := make([]uint64, n)
	for i := range v {
		switch kindSize[k] {
		case 1:
			b := vp.Byte(name)
			if k == kA {
				vp.Assume(b < 128)
			}
			if k == kBool {
				b &= 1
			}
			v[i] = uint64(b)
		case 2:
			v[i] = uint64(vp.U16(name))
		case 4:
			v[i] = uint64(vp.U32(name))
		case 8:
			v[i] = vp.U64(name)
		}
		if k == kF4 || k == kF8 {
			vp.Assume(isFinite(v[i], k))
		}
	}
	return v
}

// genItem draws an item: any kind, up to maxN elements; lists nest up to depth.
func genItem(name string, depth, maxN int) Item {
	k := kA
	if depth > 0 {
		k = vp.Choose(name+".kind", 14)
	} else {
		k = 1 + vp.Choose(name+".kind", 13)
	}
	n := vp.Choose(name+".n", maxN+1)
	it := Item{K: k}
	if k == kL {
		for i := 0; i < n; i++ {
			it.L = append(it.L, genItem(name+"c", depth-1, maxN))
		}
		return it
	}
	it.V = vals(name+".v", k, n)
	return it
}
