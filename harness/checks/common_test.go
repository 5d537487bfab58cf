package checks

import (
	"fmt"

	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"rodbverif/kit"
)

// item is what one step of an iteration gave.
type item struct {
	position int64
	record   record.Record
	all      map[string]interface{}
	allErr   error
}

// iterate reads all records of an input; err is an error of the iteration itself.
func iterate(in input.Input) (items []item, err error) {
	next, end, err := in.IterateAll()
	if err != nil {
		return nil, err
	}
	defer func() { kit.Must(end()) }()
	for {
		r, err := next()
		if err != nil {
			return items, err
		}
		if r == nil {
			if again, err := next(); again != nil || err != nil {
				return items, fmt.Errorf("the iterator gives %v, %v after its end", again, err)
			}
			return items, nil
		}
		it := item{position: r.Position(), record: r}
		it.all, it.allErr = r.All()
		items = append(items, it)
		if len(items) > 1<<20 {
			return items, fmt.Errorf("the iteration does not end")
		}
	}
}

func increasing(items []item) error {
	for i := 1; i < len(items); i++ {
		if items[i].position <= items[i-1].position {
			return fmt.Errorf("record %d is at position %d, after position %d", i, items[i].position, items[i-1].position)
		}
	}
	return nil
}

// positions collects a position iterator, which must be strictly increasing.
func positions(next record.PositionIterator, err error) ([]int64, error) {
	if err != nil {
		return nil, err
	}
	list := []int64{}
	for {
		p, err := next()
		if err != nil {
			return list, err
		}
		if p == nil {
			if again, err := next(); again != nil || err != nil {
				return list, fmt.Errorf("the position iterator gives %v, %v after its end", again, err)
			}
			return list, nil
		}
		list = append(list, *p)
		if len(list) > 1<<20 {
			return list, fmt.Errorf("the position iterator does not end")
		}
	}
}

func sortedDistinct(list []int64) bool {
	for i := 1; i < len(list); i++ {
		if list[i] <= list[i-1] {
			return false
		}
	}
	return true
}

func sameInts(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// failOn is for errors that the code under test can cause.
func failOn(t kit.TB, err error) {
	t.Helper()
	if err != nil {
		t.Fatalf("%v", err)
	}
}
