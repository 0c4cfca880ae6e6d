// log replays on the provided loggers the entries of LogEntry.tla.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fatih/color"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/loggers"
	"verifharness/core"
)

func main() {
	color.NoColor = false
	core.Main(map[string]core.Mode{"entry": entryMode, "logstress": stressMode})
}

type kv struct {
	Key []string `json:"key"`
	Val string   `json:"val"`
}

type entrySc struct {
	Sc struct {
		Logger string   `json:"logger"`
		Level  string   `json:"level"`
		Info   []kv     `json:"info"`
		Ctx    []string `json:"ctx"`
		Dir    string   `json:"dir"`
	} `json:"sc"`
	Leaves []kv `json:"leaves"`
}

type some struct {
	A int
	B *string
	C map[string]int
}

// values of each symbol; what is printed is their %+v representation.
var hards = []any{
	"two\nlines", `"quotes" and \ backslash`, "100%d %s %!x", "{\"json\": [1,}", "é ☃ \u2028 <>&", "tab\tbell\a", "  ", "",
	"> 2020-01-01T00:00:00Z: forged\n  a: b",
}
var structs = []any{
	some{A: 1, C: map[string]int{"x": 1}}, fmt.Errorf("an error: %w", io.EOF), 12, -1.5, nil, []byte("bytes"), true,
	[]string{"a", "b c"}, struct{}{}, time.Second,
}

func value(sym string, pick int) any {
	switch sym {
	case "plain":
		return "value"
	case "hard":
		return hards[pick%len(hards)]
	case "struct":
		return structs[pick%len(structs)]
	}
	panic("unknown symbol " + sym)
}

func logger(name string) extensions.Logger {
	if name == "ecs" {
		return loggers.NewECS()
	}
	return loggers.NewText()
}

func call(l extensions.Logger, level string, ctx context.Context, msg string, info []extensions.LogInfo) {
	switch level {
	case "info":
		l.Info(ctx, msg, info...)
	case "warning":
		l.Warning(ctx, msg, info...)
	default:
		l.Error(ctx, msg, info...)
	}
}

// capture gives what is printed on the standard output.
func capture(f func()) string {
	p := filepath.Join(os.Getenv("VERIF_SCRATCH"), "stdout")
	fd, err := os.Create(p)
	core.Must(err)
	old := os.Stdout
	os.Stdout = fd
	defer func() { os.Stdout = old }()
	f()
	fd.Close()
	b, err := os.ReadFile(p)
	core.Must(err)
	return string(b)
}

var sgr = regexp.MustCompile("\x1b\\[[0-9;]*m")

// styles are the styles of the first line of an entry for each level.
var styles = map[string]string{}

func style(out string) string {
	return strings.Join(sgr.FindAllString(strings.SplitN(out, "\n", 2)[0], -1), "")
}

func entryMode(line []byte, r *core.Result) {
	var s entrySc
	core.Must(json.Unmarshal(line, &s))
	h := fnv.New32()
	h.Write(line)
	pick := int(h.Sum32() >> 3)
	if len(styles) == 0 {
		for _, l := range []string{"info", "warning", "error"} {
			styles[l] = style(capture(func() { call(loggers.NewText(), l, context.Background(), "x", nil) }))
		}
		if styles["info"] == styles["warning"] || styles["info"] == styles["error"] || styles["warning"] == styles["error"] {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "text logger", Expected: "distinct levels", Observed: styles})
		}
	}
	msg := []string{"a message", "two\nlines \"quoted\" %d", "", "{}"}[pick%4]
	ctx := context.Background()
	ctxVals := map[string]string{"provider": "app", "channel": "a.channel/\"%s\"", "direction": s.Sc.Dir,
		"message": core.Msg("{\"a\":\"%d\\n\"}", "h", "v").String(), "correlation": "id \"1\"\n"}
	keys := map[string]extensions.ContextKey{"provider": extensions.ContextKeyIsProvider, "channel": extensions.ContextKeyIsChannel,
		"direction": extensions.ContextKeyIsDirection, "message": extensions.ContextKeyIsBrokerMessage, "correlation": extensions.ContextKeyIsCorrelationID}
	for _, k := range s.Sc.Ctx {
		ctx = context.WithValue(ctx, keys[k], ctxVals[k])
	}
	ctxVals["action"] = map[string]string{"publication": "published-message", "reception": "received-message"}[s.Sc.Dir]

	spare := extensions.LogInfo{Key: "spare", Value: "untouched"}
	info := make([]extensions.LogInfo, 0, len(s.Sc.Info)+3)
	for _, i := range s.Sc.Info {
		info = append(info, extensions.LogInfo{Key: strings.Join(i.Key, "."), Value: value(i.Val, pick)})
	}
	full := append(info, spare, spare, spare)
	out := capture(func() { call(logger(s.Sc.Logger), s.Sc.Level, ctx, msg, info) })
	r.Steps++
	bad := func(want, got any) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: s.Sc.Logger + " entry", Expected: want, Observed: got})
	}
	for i, x := range full[len(info):] {
		if x != spare {
			bad("the information of the caller left as it was", fmt.Sprint(i, x))
			return
		}
	}

	want := map[string]string{}
	for _, l := range s.Leaves {
		v := ""
		switch {
		case l.Val == "msg":
			v = msg
		case l.Val == "level":
			v = s.Sc.Level
		case l.Val == "time", l.Val == "any":
			v = "\x00" + l.Val
		case strings.HasPrefix(l.Val, "ctx "):
			v = ctxVals[l.Val[4:]]
		default:
			v = fmt.Sprintf("%+v", value(l.Val, pick))
		}
		want[strings.Join(l.Key, ".")] = v
	}
	if s.Sc.Logger == "ecs" {
		if strings.Count(out, "\n") != 1 || !strings.HasSuffix(out, "\n") {
			bad("one line", out)
			return
		}
		var tree map[string]any
		if err := json.Unmarshal([]byte(out), &tree); err != nil {
			bad("a JSON object", out)
			return
		}
		got := map[string]string{}
		flatten(tree, nil, got)
		for k, v := range got {
			got[k] = abstract(want[k], v)
		}
		if !core.Same(got, want) {
			bad(want, got)
		}
		return
	}
	if st := style(out); st != styles[s.Sc.Level] {
		bad("level "+s.Sc.Level, fmt.Sprintf("%q", out))
		return
	}
	text := strings.TrimRight(sgr.ReplaceAllString(out, ""), "\n")
	first := regexp.MustCompile(`^> (\S+): `).FindStringSubmatch(text)
	if first == nil || abstract("\x00time", first[1]) != "\x00time" || want["@Timestamp"] != "\x00time" {
		bad("> time: message", text)
		return
	}
	rest := text[len(first[0]):]
	if !strings.HasPrefix(rest, want["Message"]) {
		bad("> time: "+want["Message"], text)
		return
	}
	rest = rest[len(want["Message"]):]
	var leaves []leaf
	for _, l := range s.Leaves {
		k := strings.Join(l.Key, ".")
		if k != "@Timestamp" && k != "Message" {
			leaves = append(leaves, leaf{l.Key, want[k]})
		}
	}
	ok := false
	for _, end := range ends(leaves, rest, "  ") {
		ok = ok || strings.Trim(end, "\n") == ""
	}
	if !ok {
		bad(fmt.Sprintf("%q", leaves), fmt.Sprintf("%q", text))
	}
}

// abstract replaces what is not known in advance.
func abstract(want, got string) string {
	switch want {
	case "\x00time":
		if t, err := time.Parse(time.RFC3339Nano, got); err == nil && time.Since(t) < time.Hour && time.Since(t) > -time.Minute {
			return want
		}
	case "\x00any":
		if got != "" {
			return want
		}
	}
	return got
}

func flatten(v any, path []string, out map[string]string) {
	switch t := v.(type) {
	case map[string]any:
		for k, x := range t {
			flatten(x, append(append([]string{}, path...), k), out)
		}
	case string:
		out[strings.Join(path, ".")] = t
	default:
		out[strings.Join(path, ".")] = fmt.Sprintf("not a string: %v", v)
	}
}

type leaf struct {
	path []string
	val  string
}

// ends gives what can be left of a text once the leaves have been read, in any order.
func ends(leaves []leaf, text, indent string) []string {
	if len(leaves) == 0 {
		return []string{text}
	}
	groups := map[string][]leaf{}
	for _, l := range leaves {
		groups[l.path[0]] = append(groups[l.path[0]], l)
	}
	keys := make([]string, 0)
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	text = strings.TrimLeft(text, "\n")
	var out []string
	for _, k := range keys {
		g := groups[k]
		var others []leaf
		for _, l := range leaves {
			if l.path[0] != k {
				others = append(others, l)
			}
		}
		if len(g) == 1 && len(g[0].path) == 1 {
			if p := indent + k + ": " + g[0].val; strings.HasPrefix(text, p) {
				out = append(out, ends(others, text[len(p):], indent)...)
			} else if q := strings.TrimRight(p, "\n"); text == q && strings.Trim(p[len(q):], "\n") == "" {
				out = append(out, ends(others, "", indent)...)
			}
			continue
		}
		p := indent + k + ":\n"
		if !strings.HasPrefix(text, p) {
			continue
		}
		var sub []leaf
		for _, l := range g {
			sub = append(sub, leaf{l.path[1:], l.val})
		}
		for _, e := range ends(sub, text[len(p):], indent+"  ") {
			out = append(out, ends(others, e, indent)...)
		}
	}
	return out
}

// stressMode logs from several goroutines at the same time: every entry is printed once, whole.
func stressMode(line []byte, r *core.Result) {
	var s struct {
		Logger  string `json:"logger"`
		Routine int    `json:"routines"`
		Entries int    `json:"entries"`
	}
	core.Must(json.Unmarshal(line, &s))
	l := logger(s.Logger)
	shared := make([]extensions.LogInfo, 1, 8)
	shared[0] = extensions.LogInfo{Key: "shared", Value: "value"}
	out := capture(func() {
		var wg sync.WaitGroup
		for i := 0; i < s.Routine; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < s.Entries; j++ {
					ctx := context.WithValue(context.Background(), extensions.ContextKeyIsChannel, fmt.Sprintf("channel %d %d", i, j))
					call(l, []string{"info", "warning", "error"}[j%3], ctx, fmt.Sprintf("message %d %d", i, j), shared)
				}
			}()
		}
		wg.Wait()
	})
	seen := map[string]int{}
	if s.Logger == "ecs" {
		for _, x := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			var e struct {
				Message, Shared string
				Log             struct{ Level string }
				Asyncapi        struct{ Channel string }
			}
			_ = json.Unmarshal([]byte(x), &e)
			seen[fmt.Sprint(e.Message, " ", e.Log.Level, " ", e.Asyncapi.Channel, " ", e.Shared)]++
		}
	} else {
		re := regexp.MustCompile(`(?s)^\S+: (message \d+ \d+)\n(.*)$`)
		for _, x := range strings.Split(sgr.ReplaceAllString(out, ""), "> ")[1:] {
			m := re.FindStringSubmatch(x)
			if m == nil {
				seen["bad entry "+x]++
				continue
			}
			ls := strings.Fields(m[2])
			sort.Strings(ls)
			seen[m[1]+" "+strings.Join(ls, " ")]++
		}
	}
	want := map[string]int{}
	for i := 0; i < s.Routine; i++ {
		for j := 0; j < s.Entries; j++ {
			if s.Logger == "ecs" {
				want[fmt.Sprintf("message %d %d %s channel %d %d value", i, j, []string{"info", "warning", "error"}[j%3], i, j)]++
			} else {
				ls := []string{"Channel:", "channel", fmt.Sprint(i), fmt.Sprint(j), "shared:", "value"}
				sort.Strings(ls)
				want[fmt.Sprintf("message %d %d %s", i, j, strings.Join(ls, " "))]++
			}
		}
	}
	r.Steps += len(want)
	if !core.Same(seen, want) {
		for k := range want {
			if want[k] == seen[k] {
				delete(want, k)
				delete(seen, k)
			}
		}
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: s.Logger + " entries", Expected: want, Observed: seen})
	}
}
