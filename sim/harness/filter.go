package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"simverif/goapi/sttp/data"
	"simverif/simrt"
)

// FilterS is a scenario for concurrent filter evaluations over one data set.
type FilterS struct {
	Rows  int
	Exprs []FilterE
	Work  [][]int // per goroutine: which expressions, in order
}

// FilterE is one evaluation.
type FilterE struct {
	Kind string // rows, ids, set, row, trees, value, select
	Text string
	Row  int
}

func (h *H) filterSet() *data.DataSet {
	h.sc.MetaN = h.sc.FilterS.Rows
	ds := data.FromXml(h.metaXML(1))
	if ds == nil || ds.Table("MeasurementDetail") == nil {
		simrt.Abort("the data set was not loaded")
	}
	o := ds.Table("MeasurementDetail")
	t := ds.CreateTable("MeasurementDetail")
	for i := 0; i < o.ColumnCount(); i++ {
		t.AddColumn(t.CreateColumn(o.Column(i).Name(), o.Column(i).Type(), ""))
	}
	// Computed columns, one of them built on the other.
	t.AddColumn(t.CreateColumn("Both", data.DataType.String, "SignalAcronym + '-' + PointTag"))
	t.AddColumn(t.CreateColumn("Size", data.DataType.Int32, "Len(Description) + Len(Both)"))
	for i := 0; i < o.RowCount(); i++ {
		r := t.CreateRow()
		for k := 0; k < o.ColumnCount(); k++ {
			if v, err := o.Row(i).Value(k); err == nil {
				r.SetValue(k, v)
			}
		}
		t.AddRow(r)
	}
	ds.AddTable(t)
	for i := 0; i < t.RowCount(); i++ {
		if len(ds.Table("MeasurementDetail").Row(i).ValueAsStringByName("SignalID")) == 0 {
			simrt.Abort("data set row without id")
		}
	}
	return ds
}

// evalFilter runs one evaluation and renders its result.
func evalFilter(ds *data.DataSet, e *FilterE) string {
	t := ds.Table("MeasurementDetail")
	idx := map[*data.DataRow]int{}
	for i, r := range t.Rows() {
		idx[r] = i
	}
	rows := func(rs []*data.DataRow) string {
		var b strings.Builder
		for _, r := range rs {
			k, ok := idx[r]
			if !ok {
				return "a row of another table"
			}
			fmt.Fprintf(&b, "%d,", k)
		}
		return b.String()
	}
	switch e.Kind {
	case "rows":
		rs, err := data.SelectDataRows(ds, e.Text, "MeasurementDetail", nil, true)
		return fmt.Sprint(rows(rs), err)
	case "ids":
		s, err := data.SelectSignalIDSet(ds, e.Text, "MeasurementDetail", nil, true)
		var ids []string
		for g := range s {
			ids = append(ids, fmt.Sprintf("%x", g[:]))
		}
		sort.Strings(ids)
		return fmt.Sprint(ids, err)
	case "set":
		s, err := data.SelectDataRowSet(ds, e.Text, "MeasurementDetail", nil, true)
		var ks []int
		for r := range s {
			ks = append(ks, idx[r])
		}
		sort.Ints(ks)
		return fmt.Sprint(ks, err)
	case "row":
		v, err := data.EvaluateDataRowExpression(t.Row(e.Row%t.RowCount()), e.Text, true)
		if v == nil {
			return fmt.Sprint("nil ", err)
		}
		return fmt.Sprint(v.String(), v.ValueType(), err)
	case "value":
		v, err := data.EvaluateExpression(e.Text, true)
		if v == nil {
			return fmt.Sprint("nil ", err)
		}
		return fmt.Sprint(v.String(), v.ValueType(), err)
	case "trees":
		ts, err := data.GenerateExpressionTrees(ds, "MeasurementDetail", e.Text, true)
		out := fmt.Sprint(len(ts), err)
		for _, x := range ts {
			rs, err := x.Select(t)
			out += fmt.Sprint(x.TableName, x.TopLimit, len(x.OrderByTerms), rows(rs), err)
		}
		return out
	case "select":
		rs, err := t.Select(e.Text, "PointTag DESC", 5)
		return fmt.Sprint(rows(rs), err)
	}
	simrt.Abort("unknown evaluation %q", e.Kind)
	return ""
}

func (h *H) filterMain() {
	f := h.sc.FilterS
	h.makeSignals()
	ds := h.filterSet()
	type result struct {
		e   int
		got string
	}
	var results []result
	left := len(f.Work)
	for _, w := range f.Work {
		w := w
		simrt.GoHarness("evaluation", func() {
			for _, k := range w {
				got := evalFilter(ds, &f.Exprs[k])
				simrt.Log("evaluated %d: %.60s", k, got)
				results = append(results, result{k, got})
				h.probe("evaluation beside others")
			}
			left--
			h.note()
		})
	}
	if !h.until(3600*sec, func() bool { return left == 0 }) {
		h.failDump("C22", "evaluations do not finish")
	}
	simrt.Calm()
	simrt.Sleep(time.Second)
	alone := map[int]string{}
	for _, r := range results {
		want, ok := alone[r.e]
		if !ok {
			// Evaluated alone, on a data set of its own with the same content.
			h.r = simrt.NewRand(simrt.Mix(h.sc.Seed, 1))
			h.sigs = nil
			h.makeSignals()
			want = evalFilter(h.filterSet(), &f.Exprs[r.e])
			alone[r.e] = want
			if len(want) > 6 {
				h.probe("evaluation with a result")
			}
		}
		h.evals++
		if r.got != want {
			h.fail("C22", "%s %q gave %.300s beside others, but %.300s alone", f.Exprs[r.e].Kind, f.Exprs[r.e].Text, r.got, want)
		}
	}
}
