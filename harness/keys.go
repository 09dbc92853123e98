package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/timtadh/data-structures/types"
)

// cmpCount counts comparisons (Equals and Less) made on instrumented keys and
// hashCount their Hash calls. cmpLimit bounds the comparisons of a case, so that
// an endless search is found by counting and not by waiting.
var cmpCount, hashCount, cmpLimit int64

func resetCounters() {
	cmpCount, hashCount = 0, 0
	cmpLimit = 200 << 20
}

func tick() {
	cmpCount++
	if cmpCount > cmpLimit {
		panic(failure{fmt.Sprintf("more than %d key comparisons: the operation does not terminate in any reasonable number of steps", cmpLimit)})
	}
}

// hashModes are hash functions consistent with equality of the value.
const hashModes = 12

func hashOf(v int64, mode int64) int {
	switch ((mode % hashModes) + hashModes) % hashModes {
	case 0:
		return int(mix(uint64(v)))
	case 1:
		return 0
	case 2:
		return int(v)
	case 3:
		return int(-v)
	case 4:
		return math.MinInt64
	case 5:
		return int(v % 3)
	case 6:
		return int(v << 40)
	case 7:
		if v%2 == 0 {
			return math.MinInt64 + int(v&3)
		}
		return math.MaxInt64 - int(v&3)
	case 8:
		return -1
	case 9:
		return int(uint64(v) * 64)
	case 10:
		return -int(mix(uint64(v)) >> 34)
	}
	return int(mix(uint64(v)) & 0xff)
}

// K is an instrumented key: ordered and equal by V, with a chosen hash.
// Tag tells equal objects apart.
type K struct {
	V    int64
	Mode int64
	Tag  int64
}

func (k *K) Equals(o types.Equatable) bool {
	tick()
	x, ok := o.(*K)
	return ok && x != nil && x.V == k.V
}

func (k *K) Less(o types.Sortable) bool {
	tick()
	x, ok := o.(*K)
	return ok && x != nil && k.V < x.V
}

func (k *K) Hash() int {
	hashCount++
	return hashOf(k.V, k.Mode)
}

func (k *K) String() string { return fmt.Sprintf("K%d", k.V) }

// keyKinds are the key types a dictionary is driven with.
const (
	kindK = iota
	kindInt
	kindString
	kindBytes
	kindInt64
	kindUInt32
	kindEntry
	kindInt8
	kindUInt64
	kindK2 // all keys with small distinct hash
	nKinds
)

// keyMaker maps abstract keys (numbers) to key objects of a kind, preserving
// order, and back.
type keyMaker struct {
	kind, mode int64
	tag        int64
}

func newKeyMaker(kind, mode int64) *keyMaker {
	return &keyMaker{kind: ((kind % nKinds) + nKinds) % nKinds, mode: mode}
}

func (m *keyMaker) mk(v int64) types.Hashable {
	m.tag++
	switch m.kind {
	case kindInt:
		return types.Int(v)
	case kindString:
		return types.String(strKey(v))
	case kindBytes:
		return types.ByteSlice(strKey(v))
	case kindInt64:
		return types.Int64(v)
	case kindUInt32:
		return types.UInt32(uint32(v + 1<<31))
	case kindEntry:
		return &types.MapEntry{Key: types.Int(v), Value: m.tag}
	case kindInt8:
		return types.Int8(v)
	case kindUInt64:
		return types.UInt64(uint64(v) + 1<<63)
	}
	return &K{V: v, Mode: m.mode, Tag: m.tag}
}

// strKey is an order-preserving string form of small numbers in which many keys
// are prefixes of others.
func strKey(v int64) string {
	if v < -5000 || v > 4999 {
		p := "a"
		if v > 0 {
			p = "z"
		}
		return fmt.Sprintf("%s%020d", p, uint64(v)+1<<63)
	}
	return "k" + strings.TrimRight(fmt.Sprintf("%04d", v+5000), "0")
}

func (m *keyMaker) val(h types.Hashable) (int64, error) {
	switch k := h.(type) {
	case *K:
		return k.V, nil
	case types.Int:
		return int64(k), nil
	case types.Int64:
		return int64(k), nil
	case types.Int8:
		return int64(k), nil
	case types.UInt32:
		return int64(k) - 1<<31, nil
	case types.UInt64:
		return int64(uint64(k) - 1<<63), nil
	case types.String:
		return strVal(string(k))
	case types.ByteSlice:
		return strVal(string(k))
	case *types.MapEntry:
		return m.val(k.Key)
	}
	return 0, fmt.Errorf("key of unexpected type %T", h)
}

func strVal(s string) (int64, error) {
	var n int64
	if len(s) > 0 && s[0] == 'k' {
		if len(s) > 5 {
			return 0, fmt.Errorf("unexpected key %q", s)
		}
		_, err := fmt.Sscanf((s[1:] + "0000")[:4], "%d", &n)
		return n - 5000, err
	}
	var u uint64
	if len(s) > 0 && (s[0] == 'z' || s[0] == 'a') {
		_, err := fmt.Sscanf(s[1:], "%d", &u)
		return int64(u - 1<<63), err
	}
	return 0, fmt.Errorf("unexpected key %q", s)
}

type boxed struct{ n int64 }

// mkVal makes a value to store: nil, numbers, strings, pointers, slices.
func mkVal(y int64) interface{} {
	switch ((y % 8) + 8) % 8 {
	case 0:
		return nil
	case 1:
		return fmt.Sprint("v", y)
	case 2:
		return &boxed{y}
	case 3:
		return types.Int(y)
	case 4:
		return false
	case 5:
		return bag{y}
	}
	return y
}

// bag is a value that cannot be compared: doing so with == panics.
type bag []int64

// sameVal tells whether two stored values are one.
func sameVal(a, b interface{}) bool {
	x, ok := a.(bag)
	y, ok2 := b.(bag)
	if ok && ok2 {
		return len(x) == len(y) && len(x) > 0 && &x[0] == &y[0]
	}
	return ok == ok2 && a == b
}

func sortedKeys[V any](m map[int64]V) []int64 {
	ks := make([]int64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// collectKV drains an entry iterator, failing beyond limit entries.
func collectKV(t *T, what string, it types.KVIterator, limit int) (ks []types.Hashable, vs []interface{}) {
	if it == nil {
		t.Fail("%s: nil iterator", what)
	}
	for k, v, next := it(); next != nil; k, v, next = next() {
		ks = append(ks, k)
		vs = append(vs, v)
		if len(ks) > limit {
			t.Fail("%s yields more than the %d entries there are", what, limit)
		}
	}
	return
}

func collectK(t *T, what string, it types.KIterator, limit int) (ks []types.Hashable) {
	if it == nil {
		t.Fail("%s: nil iterator", what)
	}
	for k, next := it(); next != nil; k, next = next() {
		ks = append(ks, k)
		if len(ks) > limit {
			t.Fail("%s yields more than the %d items there are", what, limit)
		}
	}
	return
}

func collectV(t *T, what string, it types.Iterator, limit int) (vs []interface{}) {
	if it == nil {
		t.Fail("%s: nil iterator", what)
	}
	for v, next := it(); next != nil; v, next = next() {
		vs = append(vs, v)
		if len(vs) > limit {
			t.Fail("%s yields more than the %d values there are", what, limit)
		}
	}
	return
}
