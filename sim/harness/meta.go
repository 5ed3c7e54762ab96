package harness

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"simverif/goapi/sttp/data"
	"simverif/goapi/sttp/guid"
	"simverif/goapi/sttp/transport"
	"simverif/pub"
	"simverif/simrt"
)

type metaRow struct {
	id        pub.GUID
	source    string
	num       uint64
	tag, ref  string
	typ, desc string
	updated   time.Time
	null      map[string]bool // fields the publisher left out
}

var measurementColumns = []string{"DeviceAcronym:string", "ID:string", "SignalID:guid", "PointTag:string", "SignalReference:string", "SignalAcronym:string", "Description:string", "UpdatedOn:dateTime"}

type metaVersion struct {
	n       int
	pc      *PConn
	rows    []metaRow
	xml     []byte
	typed   []typedRow
	lacks   string // column or table the document does not have
	overlap bool
	done    bool
}

// typedColumns has one column for each type a published table can have.
var typedColumns = []string{"S:string", "B:boolean", "T:dateTime", "F:float", "D:double", "M:decimal", "G:guid", "I1:byte", "I2:short", "I4:int", "I8:long", "U1:unsignedByte", "U2:unsignedShort", "U4:unsignedInt", "U8:unsignedLong"}

// typedRow has the text of each column that has a value.
type typedRow map[string]string

func (h *H) makeTyped() (rows []typedRow) {
	for n := h.r.Intn(4); n > 0; n-- {
		row := typedRow{}
		for _, c := range typedColumns {
			name, typ, _ := strings.Cut(c, ":")
			bits := 8 << (strings.IndexByte("1248", name[len(name)-1]) & 3)
			u := h.r.Uint64() >> uint(64-bits)
			switch h.r.Intn(5) {
			case 0:
				u = simrt.Pick(h.r, uint64(0), 1, 1<<(bits-1)-1, 1<<(bits-1), ^uint64(0)>>uint(64-bits))
			case 1:
				continue
			}
			switch {
			case typ == "string":
				row[name] = simrt.Pick(h.r, "", " ", " two  words ", "a\nb", "<&>", "\u00e9\u20ac\U0001F600", "]]>", "'\"", "0", "true", strings.Repeat("long ", 200))
			case typ == "boolean":
				row[name] = strconv.FormatBool(u&1 == 1)
			case typ == "dateTime":
				row[name] = time.Unix(int64(u>>31), int64(h.r.Intn(1e7))*100).UTC().In(time.FixedZone("", h.r.Intn(97)*900-12*3600)).Format("2006-01-02T15:04:05.9999999-07:00")
			case typ == "float":
				row[name] = simrt.Pick(h.r, strconv.FormatFloat(float64(math.Float32frombits(uint32(h.r.Uint64())&^(1<<30))), 'g', -1, 32), "0", "-0.5", "3.4028235E+38")
			case typ == "double":
				row[name] = simrt.Pick(h.r, strconv.FormatFloat(math.Float64frombits(h.r.Uint64()&^(1<<62)), 'g', -1, 64), "0", "-0.1", "1.7976931348623157E+308")
			case typ == "decimal":
				row[name] = simrt.Pick(h.r, "0", "-0.1", "79228162514264337593543950335", "0.0000000000000000000000000001", fmt.Sprintf("%d.%03d", int64(h.r.Uint64())>>8, 1+h.r.Intn(9)))
			case typ == "guid":
				var g pub.GUID
				copy(g[:], h.junk(16))
				row[name] = guidText(g)
			case name[0] == 'U':
				row[name] = strconv.FormatUint(u, 10)
			default:
				row[name] = strconv.FormatInt(int64(u<<uint(64-bits))>>uint(64-bits), 10)
			}
		}
		rows = append(rows, row)
	}
	return
}

// check compares a loaded row with what was published.
func (r typedRow) check(row *data.DataRow) string {
	for _, c := range typedColumns {
		name, typ, _ := strings.Cut(c, ":")
		var got string
		var null bool
		var err error
		switch typ {
		case "string":
			got, null, err = row.StringValueByName(name)
		case "boolean":
			var v bool
			v, null, err = row.BooleanValueByName(name)
			got = strconv.FormatBool(v)
		case "dateTime":
			var v, w time.Time
			v, null, err = row.DateTimeValueByName(name)
			if w, _ = time.Parse("2006-01-02T15:04:05.9999999-07:00", r[name]); v.Equal(w) {
				got = r[name]
			}
		case "float":
			var v float32
			v, null, err = row.SingleValueByName(name)
			if w, _ := strconv.ParseFloat(r[name], 32); float32(w) == v {
				got = r[name]
			}
		case "double":
			var v float64
			v, null, err = row.DoubleValueByName(name)
			if w, _ := strconv.ParseFloat(r[name], 64); w == v {
				got = r[name]
			}
		case "decimal":
			v, n, e := row.DecimalValueByName(name)
			got, null, err = v.String(), n, e
		case "guid":
			var v guid.Guid
			v, null, err = row.GuidValueByName(name)
			got = guidText(pub.GUID(v))
		case "byte":
			v, n, e := row.Int8ValueByName(name)
			got, null, err = fmt.Sprint(v), n, e
		case "short":
			v, n, e := row.Int16ValueByName(name)
			got, null, err = fmt.Sprint(v), n, e
		case "int":
			v, n, e := row.Int32ValueByName(name)
			got, null, err = fmt.Sprint(v), n, e
		case "long":
			v, n, e := row.Int64ValueByName(name)
			got, null, err = fmt.Sprint(v), n, e
		case "unsignedByte":
			v, n, e := row.UInt8ValueByName(name)
			got, null, err = fmt.Sprint(v), n, e
		case "unsignedShort":
			v, n, e := row.UInt16ValueByName(name)
			got, null, err = fmt.Sprint(v), n, e
		case "unsignedInt":
			v, n, e := row.UInt32ValueByName(name)
			got, null, err = fmt.Sprint(v), n, e
		case "unsignedLong":
			v, n, e := row.UInt64ValueByName(name)
			got, null, err = fmt.Sprint(v), n, e
		}
		want, ok := r[name]
		if err != nil || null == ok || ok && got != want {
			return fmt.Sprintf("column of type %s is %q (null %v, error %v), sent was %q (null %v)", typ, got, null, err, want, !ok)
		}
	}
	return ""
}

func guidText(g pub.GUID) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", g[0:4], g[4:6], g[6:8], g[8:10], g[10:16])
}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func (h *H) makeRows(n int) (rows []metaRow) {
	word := func() string {
		return simrt.Pick(h.r, "BUS", "LINE", "Ünit", "a&b", "x<y", "FREQ", "µV", "\"q\"") + strconv.Itoa(h.r.Intn(1000))
	}
	add := func(g pub.GUID) {
		src := simrt.Pick(h.r, "PPA", "SHELBY", "Q")
		r := metaRow{id: g, source: src, num: h.r.Uint64() >> uint(1+h.r.Intn(60)), tag: fmt.Sprintf("TAG-%d-%s", n, word()), ref: word() + "-PA1",
			typ: simrt.Pick(h.r, "FREQ", "VPHM", "IPHA", "STAT"), desc: fmt.Sprintf("version %d %s %s", n, word(), word())}
		r.updated = time.Date(2020+h.r.Intn(6), time.Month(1+h.r.Intn(12)), 1+h.r.Intn(28), h.r.Intn(24), h.r.Intn(60), h.r.Intn(60), h.r.Intn(1000)*1_000_000, time.UTC)
		if h.r.P(h.sc.MetaOdd) {
			r.null = map[string]bool{}
			for _, c := range measurementColumns {
				if h.r.P(0.3) {
					r.null[c[:strings.IndexByte(c, ':')]] = true
				}
			}
		}
		rows = append(rows, r)
	}
	for i := range h.sigs {
		add(h.sigs[i].ID)
	}
	for i := 0; i < h.sc.MetaN; i++ {
		var g pub.GUID
		copy(g[:], h.junk(16))
		add(g)
	}
	if h.r.P(h.sc.MetaOdd) {
		// a signal described twice: the last description counts
		add(rows[h.r.Intn(len(rows))].id)
	}
	return
}

func (h *H) metaXML(n int) []byte {
	v := &metaVersion{n: n, rows: h.makeRows(n), typed: h.makeTyped()}
	return v.build(h)
}

// has tells if a row of the document has a value in a column.
func (v *metaVersion) has(r *metaRow, column string) bool {
	return v.lacks != column && v.lacks != "MeasurementDetail" && !r.null[column]
}

func (v *metaVersion) build(h *H) []byte {
	var b bytes.Buffer
	b.WriteString(`<?xml version="1.0" encoding="utf-8"?>` + "\n")
	b.WriteString(`<DataSet>` + "\n" + `<xs:schema id="DataSet" xmlns="" xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:msdata="urn:schemas-microsoft-com:xml-msdata"><xs:element name="DataSet" msdata:IsDataSet="true" msdata:UseCurrentLocale="true"><xs:complexType><xs:choice minOccurs="0" maxOccurs="unbounded">`)
	table := func(name string, cols ...string) {
		fmt.Fprintf(&b, `<xs:element name="%s"><xs:complexType><xs:sequence>`, name)
		for _, c := range cols {
			p := strings.SplitN(c, ":", 2)
			if p[1] == "guid" {
				fmt.Fprintf(&b, `<xs:element name="%s" msdata:DataType="System.Guid, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089" type="xs:string" minOccurs="0" />`, p[0])
			} else {
				fmt.Fprintf(&b, `<xs:element name="%s" type="xs:%s" minOccurs="0" />`, p[0], p[1])
			}
		}
		b.WriteString(`</xs:sequence></xs:complexType></xs:element>`)
	}
	if v.lacks != "MeasurementDetail" {
		var cols []string
		for _, c := range measurementColumns {
			if c[:strings.IndexByte(c, ':')] != v.lacks {
				cols = append(cols, c)
			}
		}
		table("MeasurementDetail", cols...)
	}
	table("Typed", typedColumns...)
	table("DeviceDetail", "Acronym:string", "Name:string", "Number:int")
	table("SchemaVersion", "VersionNumber:int")
	b.WriteString(`</xs:choice></xs:complexType></xs:element></xs:schema>` + "\n")
	typed := v.typed
	device := false
	others := func(all bool) {
		for len(typed) > 0 && (all || h.r.P(0.2)) {
			b.WriteString("<Typed>")
			for _, c := range typedColumns {
				name, _, _ := strings.Cut(c, ":")
				if text, ok := typed[0][name]; ok {
					fmt.Fprintf(&b, "<%s>%s</%s>", name, esc(text), name)
				}
			}
			b.WriteString("</Typed>")
			typed = typed[1:]
		}
		if !device && (all || h.r.P(0.1)) {
			device = true
			fmt.Fprintf(&b, "<DeviceDetail><Acronym>DEV%d</Acronym><Name>Device</Name><Number>%d</Number></DeviceDetail>\n", v.n, v.n*7)
		}
	}
	for _, r := range v.rows {
		if v.lacks == "MeasurementDetail" {
			break
		}
		others(false)
		b.WriteString("<MeasurementDetail>")
		field := func(name, text string) {
			if v.has(&r, name) {
				fmt.Fprintf(&b, "<%s>%s</%s>", name, text, name)
			}
		}
		field("DeviceAcronym", fmt.Sprintf("DEV%d", v.n))
		field("ID", fmt.Sprintf("%s:%d", r.source, r.num))
		field("SignalID", guidText(r.id))
		field("PointTag", esc(r.tag))
		field("SignalReference", esc(r.ref))
		field("SignalAcronym", r.typ)
		field("Description", esc(r.desc))
		field("UpdatedOn", r.updated.In(time.FixedZone("", h.r.Intn(25)*3600-12*3600)).Format("2006-01-02T15:04:05.999-07:00"))
		b.WriteString("</MeasurementDetail>\n")
	}
	others(true)
	fmt.Fprintf(&b, "<SchemaVersion><VersionNumber>%d</VersionNumber></SchemaVersion>\n</DataSet>\n", v.n)
	return b.Bytes()
}

// newMeta creates the content of the next metadata response.
func (h *H) newMeta(pc *PConn) *metaVersion {
	v := &metaVersion{n: len(h.meta) + 1, pc: pc}
	v.rows = h.makeRows(v.n)
	v.typed = h.makeTyped()
	if h.r.P(h.sc.MetaOdd) {
		v.lacks = simrt.Pick(h.r, "MeasurementDetail", "SignalID", "ID", "PointTag", "Description", "UpdatedOn", "SignalAcronym", "SignalReference")
		h.w.Fault("metadata lacks a table or column")
	}
	v.xml = v.build(h)
	for _, o := range h.meta {
		if !o.done {
			v.overlap = true
			o.overlap = true
		}
	}
	h.meta = append(h.meta, v)
	e := &pevent{kind: "meta", pc: pc, seq: h.seq(), want: strconv.Itoa(v.n)}
	h.app.events = append(h.app.events, e)
	return v
}

func (a *App) onMeta(n int, d *data.DataSet) {
	h := a.h
	defer a.enter("meta", n)()
	if h.hostile {
		return
	}
	if d == nil {
		h.fail("C07", "metadata reported without content")
		return
	}
	sv := d.Table("SchemaVersion")
	if sv == nil || sv.RowCount() != 1 {
		h.fail("C07", "metadata was delivered with damaged content: no version table")
		return
	}
	k, err := strconv.Atoi(sv.RowValueAsStringByName(0, "VersionNumber"))
	if err != nil || k < 1 || k > len(h.meta) {
		h.fail("C07", "metadata was delivered with damaged content: version %q", sv.RowValueAsStringByName(0, "VersionNumber"))
		return
	}
	v := h.meta[k-1]
	a.match("meta", n, strconv.Itoa(k))
	v.pc.metaHandled++
	tables := 4
	if v.lacks == "MeasurementDetail" {
		tables = 3
	}
	if d.TableCount() != tables {
		h.fail("C07", "metadata version %d has %d tables, sent %d", k, d.TableCount(), tables)
	}
	md := d.Table("MeasurementDetail")
	if (md == nil) != (tables == 3) || md != nil && md.RowCount() != len(v.rows) {
		h.fail("C07", "metadata version %d: measurement table is missing or has the wrong number of rows", k)
		return
	}
	bad := ""
	for i := range v.rows {
		if md == nil {
			break
		}
		r := &v.rows[i]
		row := md.Row(i)
		differs := func(c, want string) bool {
			s, null, err := row.StringValueByName(c)
			if v.lacks == c {
				return err == nil
			}
			return err != nil || null != r.null[c] || !null && s != want
		}
		g, null, err := row.GuidValueByName("SignalID")
		wrong := v.has(r, "SignalID") && (null || err != nil || [16]byte(g) != [16]byte(r.id)) || !v.has(r, "SignalID") && err == nil && !null
		t, null, err := row.DateTimeValueByName("UpdatedOn")
		wrong = wrong || v.has(r, "UpdatedOn") && (null || err != nil || !t.Equal(r.updated)) || !v.has(r, "UpdatedOn") && err == nil && !null
		if wrong || differs("ID", fmt.Sprintf("%s:%d", r.source, r.num)) || differs("PointTag", r.tag) || differs("SignalReference", r.ref) ||
			differs("SignalAcronym", r.typ) || differs("Description", r.desc) || differs("DeviceAcronym", fmt.Sprintf("DEV%d", k)) {
			bad = fmt.Sprintf("row %d (%s)", i, r.desc)
			break
		}
	}
	if dd := d.Table("DeviceDetail"); dd == nil || dd.RowCount() != 1 {
		bad = "device table"
	} else if x, null, err := dd.Row(0).Int32ValueByName("Number"); null || err != nil || int(x) != k*7 {
		bad = "device table"
	}
	if ty := d.Table("Typed"); ty == nil || ty.RowCount() != len(v.typed) {
		bad = "table with columns of all types"
	} else {
		for i, r := range v.typed {
			if e := r.check(ty.Row(i)); e != "" {
				bad = fmt.Sprintf("row %d of the table with columns of all types (%s)", i, e)
				break
			}
		}
	}
	h.evals += int64(len(v.rows))
	if bad != "" {
		h.fail("C07", "metadata version %d: %s differs from what was sent", k, bad)
	}
	if !v.overlap && h.live() == v.pc {
		for i := range v.rows {
			if i > 40 && !h.r.P(0.1) || !v.has(&v.rows[i], "SignalID") || v.again(i) {
				continue
			}
			a.checkRecord(v, &v.rows[i])
		}
	}
	v.done = true
	h.note()
}

// again tells if a later row describes the same signal.
func (v *metaVersion) again(i int) bool {
	for j := i + 1; j < len(v.rows); j++ {
		if v.rows[j].id == v.rows[i].id && v.has(&v.rows[j], "SignalID") {
			return true
		}
	}
	return false
}

func (a *App) checkRecord(v *metaVersion, r *metaRow) {
	h := a.h
	g := guid.Guid(r.id)
	m := a.sb.LookupMetadata(g)
	if h.live() != v.pc || v.overlap {
		return
	}
	if m == nil {
		h.fail("C07", "no metadata record for a published measurement")
		return
	}
	h.evals++
	// A column the document does not have leaves a record as it was, so do identifiers that are left out.
	text := func(c, got, want string) bool {
		if r.null[c] {
			want = ""
		}
		return v.lacks == c || got == want
	}
	u := r.updated
	if r.null["UpdatedOn"] {
		u = time.Time{}
	}
	if m.SignalID != g || v.has(r, "ID") && (m.Source != r.source || m.ID != r.num) || !text("PointTag", m.Tag, r.tag) || !text("SignalReference", m.SignalReference, r.ref) ||
		!text("SignalAcronym", m.SignalType, r.typ) || !text("Description", m.Description, r.desc) || v.lacks != "UpdatedOn" && !m.UpdatedOn.Equal(u) {
		h.fail("C07", "metadata record of %s differs from what was published: %+v, sent %+v", guidText(r.id), *m, *r)
	}
	if m.Multiplier != 1 && a.adj[g] == nil || m.Adder != 0 && a.adj[g] == nil {
		h.fail("C07", "a fresh metadata record has multiplier %v and adder %v", m.Multiplier, m.Adder)
	}
	a.samePointer(g, m)
	x := transport.Measurement{SignalID: g, Value: 12.5}
	if a.sb.Metadata(&x) != m && h.live() == v.pc {
		h.fail("C07", "one signal resolves to different metadata records")
	}
	if h.r.P(0.3) {
		a.adj[g] = m
		m.Multiplier, m.Adder = 2.5, -3
		if got := a.sb.AdjustedValue(&x); got != 12.5*2.5-3 && h.live() == v.pc {
			h.fail("C07", "adjusted value is %v, expected %v", got, 12.5*2.5-3)
		}
	}
}

// samePointer requires lookups of one signal on one connection to yield one record.
func (a *App) samePointer(g guid.Guid, m *transport.MeasurementMetadata) {
	h := a.h
	pc := h.live()
	if pc == nil || !pc.gotModes {
		return
	}
	if o := a.lookups[g]; o != nil && o.pc == pc {
		if o.p != m {
			h.fail("C07", "one signal resolves to two different metadata records")
		}
		return
	}
	a.lookups[g] = &lookupRec{pc, m}
	delete(a.adj, g)
}

// lookup is done by application threads at any time.
func (a *App) lookup() {
	h := a.h
	for i := 0; i < 1+h.r.Intn(6); i++ {
		pc := h.live()
		var g guid.Guid
		if len(h.sigs) > 0 && h.r.P(0.7) {
			g = guid.Guid(h.sigs[h.r.Intn(len(h.sigs))].ID)
		} else {
			g = guid.Guid{byte(h.r.Intn(4)), 1, 2, 3}
		}
		ok := pc != nil && pc.gotModes
		m := a.sb.LookupMetadata(g)
		h.evals++
		if m == nil || m.SignalID != g {
			h.fail("C07", "looking up a signal yields a record of another signal")
			return
		}
		if ok && h.live() == pc {
			a.samePointer(g, m)
		}
	}
}
