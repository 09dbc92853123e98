package main

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

var anyKind = []int{kindK, kindK, kindK, kindInt, kindString, kindBytes, kindInt64, kindUInt32, kindEntry, kindInt8, kindUInt64}

// nodeSize maps a configuration number to a B+ tree node size in the domain.
func nodeSize(n int64) int { return 2 + wrapCap(n, 2000) }

func genNodeSize(r *R, cfg map[string]int64) {
	cfg["size"] = int64(pick(r, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 14, 30, 61))
}

func init() {
	dictCheck("C01", "hash table", 12000, 300, false, anyKind,
		func(c *Case) types.Map { return hashtable.NewHashTable(wrapCap(c.cfg("size"), 64)) },
		func(r *R, cfg map[string]int64) { cfg["size"] = int64(pick(r, 0, 0, 1, 1, 2, 3, 4, 7, 16, 32, 63)) }, nil)
	dictCheck("C02", "linear hash table", 2500, 1500, false, anyKind,
		func(c *Case) types.Map { return hashtable.NewLinearHash() }, nil, nil)
	dictCheck("C03", "AVL tree", 12000, 250, true, anyKind,
		func(c *Case) types.Map { return avl.NewAvlTree() }, nil, nil)
	dictCheck("C04", "immutable AVL tree", 12000, 250, true, anyKind,
		func(c *Case) types.Map { return avl.NewImmutableAvlTree() }, nil, nil)
	dictCheck("C07", "B+ tree map", 12000, 300, true, anyKind,
		func(c *Case) types.Map { return bptree.NewBpMap(nodeSize(c.cfg("size"))) }, genNodeSize, nil)
}
