//go:build go1.25

package veriffunc

import (
	"sort"
	"strconv"
)

func itoa(i int) string { return strconv.Itoa(i) }
func sortInts(l []int)  { sort.Ints(l) }
