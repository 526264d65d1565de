// Package drive executes plans against the registered generated packages.
package drive

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"simrt"
	"sort"
	"strconv"
	"strings"
	"time"
)

type item struct {
	Text   string   `json:"text"` // base64
	Ref    string   `json:"ref"`
	Cap    uint64   `json:"cap"`
	Orders []uint64 `json:"orders"`
}

type job struct {
	Op     string `json:"op"`
	Doc    int    `json:"doc"`
	Ref    string `json:"ref"`
	Cap    uint64 `json:"cap"`
	Shared bool   `json:"shared"`
}

type request struct {
	Op       string         `json:"op"`
	Pkg      string         `json:"pkg"`
	Items    []item         `json:"items"`
	Docs     []string       `json:"docs"`
	Threads  [][]job        `json:"threads"`
	Order    uint64         `json:"order"`
	Schedule simrt.Schedule `json:"schedule"`
}

type outcome struct {
	Panic    string      `json:"panic,omitempty"`
	Accepted bool        `json:"accepted"`
	Full     bool        `json:"full"`
	Errors   [][2]string `json:"errors"`
	Graph    string      `json:"graph,omitempty"`
	Value    *string     `json:"value,omitempty"`
	Err      string      `json:"err,omitempty"`
	Late     string      `json:"late,omitempty"`
	Changed  string      `json:"changed,omitempty"`

	Shared   string      `json:"shared,omitempty"`

	live func() string
	raw  interface{}
}

// parts finds the maps, slices and structures that a value consists of, by address.
func parts(v reflect.Value, found map[uintptr]string) {
	if !v.IsValid() || v.Type() == reflect.TypeOf(time.Time{}) || v.Type() == reflect.TypeOf(&time.Location{}) {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		parts(v.Elem(), found)
	case reflect.Ptr:
		if v.IsNil() || found[v.Pointer()] != "" {
			return
		}
		if v.Type().Elem().Size() > 0 {
			found[v.Pointer()] = v.Type().String()
		}
		parts(v.Elem(), found)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			parts(v.Field(i), found)
		}
	case reflect.Map:
		if v.IsNil() || found[v.Pointer()] != "" {
			return
		}
		found[v.Pointer()] = v.Type().String()
		for _, key := range v.MapKeys() {
			parts(v.MapIndex(key), found)
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			found[v.Pointer()] = v.Type().String()
		}
		for i := 0; i < v.Len(); i++ {
			parts(v.Index(i), found)
		}
	}
}

// sharing reports what the result has in common with its input or with results seen before.
func sharing(owners map[uintptr]string, name string, given interface{}, result interface{}) string {
	mine, got := map[uintptr]string{}, map[uintptr]string{}
	parts(reflect.ValueOf(given), mine)
	parts(reflect.ValueOf(result), got)
	out := ""
	for p, what := range got {
		text := ""
		if mine[p] != "" {
			text = "the result and the input share a " + what
		} else if owners[p] != "" {
			text = "the result and that of " + owners[p] + " share a " + what
		}
		if text != "" && (out == "" || text < out) {
			out = text
		}
		owners[p] = name
	}
	return out
}

func decode(text64 string) (interface{}, error) {
	raw, err := base64.StdEncoding.DecodeString(text64)
	if err != nil {
		panic(err)
	}
	var doc interface{}
	err = json.Unmarshal(raw, &doc)
	return doc, err
}

func dump(doc interface{}) string {
	text, err := json.Marshal(doc)
	if err != nil {
		return "cannot be marshalled: " + err.Error()
	}
	return string(text)
}

// Freeze writes the graph down with its structure of pointers.
func Freeze(graph interface{}) string {
	var b strings.Builder
	labels := map[uintptr]string{}
	top := reflect.ValueOf(graph)
	kinds := map[reflect.Type]bool{}
	if top.Kind() == reflect.Ptr && !top.IsNil() && top.Elem().Kind() == reflect.Struct {
		for i := 0; i < top.Elem().NumField(); i++ {
			field := top.Elem().Field(i)
			t := field.Type()
			if t.Kind() == reflect.Map && t.Key().Kind() == reflect.String && t.Elem().Kind() == reflect.Ptr &&
				t.Elem().Elem().Kind() == reflect.Struct && t.Elem().Elem().String() != "time.Location" {
				if _, ok := t.Elem().Elem().FieldByName("ID"); !ok {
					continue
				}
				name := top.Elem().Type().Field(i).Name
				for _, key := range sortedKeys(field) {
					p := field.MapIndex(key).Pointer()
					if p != 0 && labels[p] == "" {
						labels[p] = name + "/" + strconv.Quote(key.String())
					}
				}
				kinds[t.Elem().Elem()] = true
			}
		}
	}
	f := &freezer{b: &b, labels: labels, kinds: kinds, open: map[uintptr]bool{}}
	f.value(top, true)
	return b.String()
}

type freezer struct {
	b      *strings.Builder
	labels map[uintptr]string
	kinds  map[reflect.Type]bool
	open   map[uintptr]bool
}

func sortedKeys(m reflect.Value) []reflect.Value {
	keys := m.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	return keys
}

func (f *freezer) value(v reflect.Value, top bool) {
	if !v.IsValid() {
		f.b.WriteString("nil")
		return
	}
	if v.Type() == reflect.TypeOf(time.Time{}) {
		t := v.Interface().(time.Time)
		f.b.WriteString("time(" + t.Format(time.RFC3339Nano) + " " + t.Location().String() + ")")
		return
	}
	if v.Type() == reflect.TypeOf(&time.Location{}) {
		if v.IsNil() {
			f.b.WriteString("nil")
		} else {
			f.b.WriteString("zone(" + v.Interface().(*time.Location).String() + ")")
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			f.b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr && v.Elem().Kind() == reflect.Struct {
			p := v.Pointer()
			if label, ok := f.labels[p]; ok {
				f.b.WriteString("&" + label)
				if f.open[p] {
					return
				}
				f.open[p] = true
			} else if f.kinds[v.Elem().Type()] {
				f.b.WriteString("&STRAY")
				if f.open[p] {
					return
				}
				f.open[p] = true
			} else {
				f.b.WriteString("&")
			}
		} else {
			f.b.WriteString("&")
		}
		f.value(v.Elem(), false)
	case reflect.Struct:
		f.b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			f.b.WriteString(v.Type().Field(i).Name + ":")
			f.value(v.Field(i), false)
			f.b.WriteString(" ")
		}
		f.b.WriteString("}")
	case reflect.Map:
		if v.IsNil() {
			f.b.WriteString("nilmap")
			return
		}
		f.b.WriteString("{")
		for _, key := range sortedKeys(v) {
			f.b.WriteString(strconv.Quote(fmt.Sprint(key)) + ":")
			f.value(v.MapIndex(key), false)
			f.b.WriteString(" ")
		}
		f.b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			f.b.WriteString("nilslice")
			return
		}
		f.b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			f.value(v.Index(i), false)
			f.b.WriteString(" ")
		}
		f.b.WriteString("]")
	case reflect.String:
		f.b.WriteString(strconv.Quote(v.String()))
	case reflect.Float64, reflect.Float32:
		f.b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		f.b.WriteString(fmt.Sprint(v))
	}
}

func where() string {
	for _, line := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(line, "/w/") || strings.Contains(line, "w/p") {
			return strings.TrimSpace(line)
		}
	}
	return ""
}

func parse(entry simrt.Entry, doc interface{}, ref string, cap uint64) (out outcome, graph interface{}) {
	defer func() {
		if r := recover(); r != nil {
			out = outcome{Panic: fmt.Sprint(r)}
			graph = nil
		}
	}()
	g, errs, empty, full := entry.Parse(doc, ref, cap)
	out = outcome{Accepted: empty, Full: full, Errors: [][2]string{}}
	for _, e := range errs {
		out.Errors = append(out.Errors, [2]string{e.Ref, e.Message})
	}
	if empty {
		graph = g
		out.Graph = Freeze(g)
		out.raw = g
		out.live = func() string { return Freeze(g) }
	}
	return
}

func serialize(entry simrt.Entry, graph interface{}) (out outcome) {
	defer func() {
		if r := recover(); r != nil {
			out = outcome{Panic: fmt.Sprint(r)}
		}
	}()
	value, err := entry.Serialize(graph)
	if err != nil {
		out = outcome{Err: err.Error()}
		return
	}
	text := dump(value)
	out = outcome{Accepted: true, Value: &text, raw: value}
	out.live = func() string { return dump(value) }
	return
}

func runDocs(entry simrt.Entry, req request) interface{} {
	out := []interface{}{}
	for _, it := range req.Items {
		probe, err := decode(it.Text)
		if err != nil {
			out = append(out, map[string]interface{}{"state": "not-json", "why": err.Error()})
			continue
		}
		runs := []interface{}{}
		owners := map[uintptr]string{}
		kept := []interface{}{}
		for _, order := range it.Orders {
			simrt.Order = order
			doc, _ := decode(it.Text)
			got, graph := parse(entry, doc, it.Ref, it.Cap)
			if !reflect.DeepEqual(doc, probe) {
				got.Changed = dump(doc)
			}
			kept = append(kept, doc, graph)
			if graph != nil {
				got.Shared = sharing(owners, "an earlier parse", doc, graph)
			}
			run := map[string]interface{}{"parse": got}
			if graph != nil {
				wrote := serialize(entry, graph)
				if wrote.raw != nil {
					kept = append(kept, wrote.raw)
					wrote.Shared = sharing(owners, "an earlier call", graph, wrote.raw)
				}
				if after := Freeze(graph); after != got.Graph {
					wrote.Changed = after
				}
				run["serialize"] = wrote
			}
			runs = append(runs, run)
		}
		runtime.KeepAlive(kept)
		out = append(out, map[string]interface{}{"state": "read", "doc": dump(probe), "runs": runs})
	}
	return out
}

func runThreads(entry simrt.Entry, req request) interface{} {
	simrt.Order = req.Order
	shared := []interface{}{}
	before := []string{}
	graphs := map[int]interface{}{}
	frozen := map[int]string{}
	for _, text := range req.Docs {
		doc, err := decode(text)
		if err != nil {
			panic(err)
		}
		shared = append(shared, doc)
		before = append(before, dump(doc))
	}
	own := func(i int) interface{} {
		doc, _ := decode(req.Docs[i])
		return doc
	}
	graph := func(i int) interface{} {
		out, g := parse(entry, own(i), "#", 1)
		if out.Panic != "" || g == nil {
			return nil
		}
		return g
	}
	results := make([][]outcome, len(req.Threads))
	type input struct {
		doc    interface{}
		graph  interface{}
		before string
	}
	inputs := make([][]input, len(req.Threads))
	for t, jobs := range req.Threads {
		results[t] = make([]outcome, len(jobs))
		inputs[t] = make([]input, len(jobs))
		for j, jb := range jobs {
			in := &inputs[t][j]
			if jb.Op == "parse" {
				if jb.Shared {
					in.doc = shared[jb.Doc]
				} else {
					in.doc = own(jb.Doc)
				}
				in.before = before[jb.Doc]
			} else {
				if jb.Shared {
					if _, ok := graphs[jb.Doc]; !ok {
						graphs[jb.Doc] = graph(jb.Doc)
						frozen[jb.Doc] = Freeze(graphs[jb.Doc])
					}
					in.graph, in.before = graphs[jb.Doc], frozen[jb.Doc]
				} else {
					in.graph = graph(jb.Doc)
					in.before = Freeze(in.graph)
				}
			}
		}
	}
	funs := []func(){}
	for t := range req.Threads {
		t := t
		funs = append(funs, func() {
			for j, jb := range req.Threads[t] {
				if jb.Op == "parse" {
					results[t][j], _ = parse(entry, inputs[t][j].doc, jb.Ref, jb.Cap)
				} else if inputs[t][j].graph == nil {
					results[t][j] = outcome{Err: "no graph to serialize"}
				} else {
					results[t][j] = serialize(entry, inputs[t][j].graph)
				}
			}
		})
	}
	simrt.Run(funs, req.Schedule)
	owners := map[uintptr]string{}
	for t := range results {
		for j := range results[t] {
			if out := &results[t][j]; out.raw != nil {
				given := inputs[t][j].doc
				if given == nil {
					given = inputs[t][j].graph
				}
				out.Shared = sharing(owners, fmt.Sprintf("goroutine %d call %d", t, j), given, out.raw)
			}
		}
	}
	for t, jobs := range req.Threads {
		for j, jb := range jobs {
			out := &results[t][j]
			if out.live != nil {
				now := out.live()
				if was := out.Graph; jb.Op == "parse" && now != was || jb.Op != "parse" && now != *out.Value {
					out.Late = now
				}
			}
			after := ""
			if jb.Op == "parse" {
				after = dump(inputs[t][j].doc)
			} else {
				after = Freeze(inputs[t][j].graph)
			}
			if after != inputs[t][j].before {
				out.Changed = after
			}
		}
	}
	return map[string]interface{}{"results": results, "performed": simrt.Performed, "places": simrt.Places,
		"steps": simrt.Steps, "stuck": simrt.Stuck, "iterations": simrt.Iterations}
}

func answer(line []byte) (out interface{}) {
	defer func() {
		if r := recover(); r != nil {
			out = map[string]interface{}{"error": fmt.Sprint(r) + "\n" + string(debug.Stack())}
		}
	}()
	var req request
	if err := json.Unmarshal(line, &req); err != nil {
		panic(err)
	}
	entry, ok := simrt.Entries[req.Pkg]
	if !ok {
		panic("no package " + req.Pkg)
	}
	simrt.Iterations = 0
	switch req.Op {
	case "docs":
		return runDocs(entry, req)
	case "threads":
		return runThreads(entry, req)
	}
	panic("unknown op " + req.Op)
}

// Main serves requests, one per line.
func Main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		text, err := json.Marshal(answer(line))
		if err != nil {
			panic(err)
		}
		out.Write(text)
		out.WriteByte('\n')
		out.Flush()
	}
}
