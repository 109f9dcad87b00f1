// csmap executes operation sequences on sharded maps.
package main

import (
	"strconv"

	smap "github.com/yusank/godis/lib/shard_map"

	"verif/inproc/wire"
)

type op struct {
	M    int // which map
	Op   string
	K    []byte
	V    *string // nil is the nil value
	Ks   [][]byte
	N    int  // stop after N visits, 0: never
	Stop bool // abort of upsert
}

type kv struct {
	K []byte
	V *string
}

type result struct {
	Ok      bool
	V       *string
	Odd     bool // the value is not one the harness stored
	Calls   int
	Old     *string
	Exist   bool
	New     *string
	Entries []kv
}

type query struct {
	Maps int
	Ops  []op
}

type answer struct{ Results []result }

func toIface(v *string) interface{} {
	if v == nil {
		return nil
	}
	return *v
}

func (r *result) val(v interface{}) *string {
	switch x := v.(type) {
	case nil:
		return nil
	case string:
		return &x
	}
	r.Odd = true
	return nil
}

func main() {
	wire.Serve(func(q *query) *answer {
		a := &answer{}
		var maps []smap.Map
		for i := 0; i < q.Maps; i++ {
			maps = append(maps, smap.New())
		}
		items := map[int]map[string]interface{}{}
		for _, o := range q.Ops {
			m, k := maps[o.M], string(o.K)
			var r result
			switch o.Op {
			case "get":
				var v interface{}
				v, r.Ok = m.Get(k)
				r.V = r.val(v)
			case "has":
				r.Ok = m.Has(k)
			case "set":
				m.Set(k, toIface(o.V))
			case "fill":
				for j := 0; j < o.N; j++ {
					m.Set(k+strconv.Itoa(j), strconv.Itoa(j))
				}
			case "clear":
				m.RangeAndDelete(func(string, interface{}) (bool, bool) { return true, true })
			case "setifabsent":
				r.Ok = m.SetIfAbsent(k, toIface(o.V))
			case "delete":
				m.Delete(k)
			case "deleteifexists":
				r.Ok = m.DeleteIfExists(k)
			case "loadanddelete":
				var v interface{}
				v, r.Ok = m.LoadAndDelete(k)
				r.V = r.val(v)
			case "upsert":
				ks := ""
				if len(o.Ks) > 0 {
					ks = string(o.Ks[0])
				}
				v, abort := m.Upsert(k, toIface(o.V), func(exist bool, old, nw interface{}) (interface{}, bool) {
					r.Calls++
					r.Exist, r.Old, r.New = exist, r.val(old), r.val(nw)
					return ks, o.Stop
				})
				r.V, r.Ok = r.val(v), abort
			case "keys":
				for _, k := range m.Keys() {
					r.Entries = append(r.Entries, kv{K: []byte(k)})
				}
			case "items":
				it := m.Items()
				items[o.M] = it
				for k, v := range it {
					r.Entries = append(r.Entries, kv{[]byte(k), r.val(v)})
				}
			case "spoilcopy": // change the copy, not the map
				it := items[o.M]
				for k := range it {
					delete(it, k)
				}
				if it != nil {
					it[k] = toIface(o.V)
				}
			case "readcopy":
				for k, v := range items[o.M] {
					r.Entries = append(r.Entries, kv{[]byte(k), r.val(v)})
				}
			case "range":
				m.Range(func(k string, v interface{}) bool {
					r.Entries = append(r.Entries, kv{[]byte(k), r.val(v)})
					return o.N == 0 || len(r.Entries) < o.N
				})
			case "rangeanddelete":
				del := map[string]bool{}
				for _, k := range o.Ks {
					del[string(k)] = true
				}
				m.RangeAndDelete(func(k string, v interface{}) (bool, bool) {
					r.Entries = append(r.Entries, kv{[]byte(k), r.val(v)})
					return del[k], o.N == 0 || len(r.Entries) < o.N
				})
			}
			a.Results = append(a.Results, r)
		}
		return a
	})
}
