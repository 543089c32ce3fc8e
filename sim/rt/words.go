package rt

import "sort"

// Words are the literals of the instrumented sources: lengths, counts, numbers
// and strings that may matter to the code.
type Words struct {
	Nums []uint64   `json:"nums"` // ascending
	Strs []string   `json:"strs,omitempty"`
	Oids [][]uint32 `json:"oids,omitempty"`
}

// Dict is the dictionary of the tree under test, or that of a replay file.
var Dict = &Words{}

// AddWords is called by the instrumented packages.
func AddWords(nums []uint64, strs []string, oids [][]uint32) {
	d := Dict
	seen := map[uint64]bool{}
	for _, n := range append(d.Nums, nums...) {
		seen[n] = true
	}
	d.Nums = d.Nums[:0]
	for n := range seen {
		d.Nums = append(d.Nums, n)
	}
	sort.Slice(d.Nums, func(i, j int) bool { return d.Nums[i] < d.Nums[j] })
	known := map[string]bool{}
	for _, s := range append(d.Strs, strs...) {
		known[s] = true
	}
	d.Strs = d.Strs[:0]
	for s := range known {
		d.Strs = append(d.Strs, s)
	}
	sort.Strings(d.Strs)
	less := func(a, b []uint32) int {
		for i := range a {
			if i >= len(b) || a[i] > b[i] {
				return 1
			}
			if a[i] < b[i] {
				return -1
			}
		}
		if len(a) < len(b) {
			return -1
		}
		return 0
	}
	all := append(d.Oids, oids...)
	sort.Slice(all, func(i, j int) bool { return less(all[i], all[j]) < 0 })
	d.Oids = nil
	for i, id := range all {
		if i == 0 || less(all[i-1], id) != 0 {
			d.Oids = append(d.Oids, id)
		}
	}
}

// Num is a number of the dictionary or one next to it.
func (c *Choices) Num() uint64 {
	if len(Dict.Nums) == 0 {
		return 0
	}
	n := Dict.Nums[c.Choose(len(Dict.Nums))]
	return n + []uint64{0, 1, ^uint64(0)}[c.Choose(3)]
}

// NumTo is a number of the dictionary of at most max, or one next to it; def
// if there is none.
func (c *Choices) NumTo(max, def int) int {
	k := sort.Search(len(Dict.Nums), func(i int) bool { return Dict.Nums[i] > uint64(max) })
	if k == 0 {
		return def
	}
	n := int(Dict.Nums[c.Choose(k)]) + []int{0, 1, -1}[c.Choose(3)]
	if n > max {
		n = max
	}
	if n < 0 {
		n = 0
	}
	return n
}
