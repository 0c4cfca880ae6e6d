package core

import (
	"context"
	"fmt"
	"reflect"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

// SubFn is what a stub of a generated AppSubscriber/UserSubscriber calls.
type SubFn func(method string, ctx context.Context, msg any) error

// Pkg is a generated package, as registered by its glue file.
type Pkg struct {
	Name  string
	Funcs map[string]any
	Types map[string]reflect.Type
	// Subscribers builds stubs of the AppSubscriber and UserSubscriber interfaces
	Subscribers map[string]func(SubFn) any
	// Values are the package level constants and variables
	Values map[string]any
}

// Packages are the generated packages.
var Packages = map[string]*Pkg{}

// Register registers a generated package.
func Register(p *Pkg) { Packages[p.Name] = p }

// Side is a generated controller.
type Side struct {
	Pkg  *Pkg
	Name string // App or User
	Ctrl reflect.Value
}

// Opts are the options of a controller.
type Opts struct {
	Logger       extensions.Logger
	Middlewares  []extensions.Middleware
	ErrorHandler extensions.ErrorHandler
}

// NewSide creates a controller.
func (p *Pkg) NewSide(name string, bc extensions.BrokerController, o Opts) (*Side, error) {
	f, ok := p.Funcs["New"+name+"Controller"]
	if !ok {
		return nil, fmt.Errorf("package %s has no New%sController", p.Name, name)
	}
	fv := reflect.ValueOf(f)
	bcv := reflect.New(reflect.TypeOf((*extensions.BrokerController)(nil)).Elem()).Elem()
	if bc != nil {
		bcv.Set(reflect.ValueOf(bc))
	}
	args := []reflect.Value{bcv}
	if o.Logger != nil {
		args = append(args, reflect.ValueOf(p.Funcs["WithLogger"]).Call([]reflect.Value{reflect.ValueOf(o.Logger)})[0])
	}
	if len(o.Middlewares) > 0 {
		args = append(args, reflect.ValueOf(p.Funcs["WithMiddlewares"]).CallSlice([]reflect.Value{reflect.ValueOf(o.Middlewares)})[0])
	}
	if o.ErrorHandler != nil {
		args = append(args, reflect.ValueOf(p.Funcs["WithErrorHandler"]).Call([]reflect.Value{reflect.ValueOf(o.ErrorHandler)})[0])
	}
	out := fv.Call(args)
	if err, _ := out[1].Interface().(error); err != nil {
		return nil, err
	}
	return &Side{Pkg: p, Name: name, Ctrl: out[0]}, nil
}

// Has tells if the controller has one of the methods.
func (s *Side) Has(method string) bool { return s.Ctrl.MethodByName(method).IsValid() }

func (s *Side) method(name string) reflect.Value {
	m := s.Ctrl.MethodByName(name)
	if !m.IsValid() {
		panic(MissingMethod{fmt.Sprintf("%s: %sController has no method %s", s.Pkg.Name, s.Name, name)})
	}
	return m
}

// MissingMethod is raised when the generated API lacks something.
type MissingMethod struct{ Msg string }

func asErr(v reflect.Value) error {
	err, _ := v.Interface().(error)
	return err
}

// Params are the values of the parameters of a channel, by go field name.
type Params map[string]string

func (s *Side) params(t reflect.Type, p Params) reflect.Value {
	v := reflect.New(t).Elem()
	for k, x := range p {
		f := v.FieldByName(k)
		if !f.IsValid() {
			panic(MissingMethod{fmt.Sprintf("%s: %s has no field %s", s.Pkg.Name, t, k)})
		}
		switch f.Kind() {
		case reflect.String:
			f.SetString(x)
		case reflect.Int64, reflect.Int32:
			var i int64
			fmt.Sscan(x, &i)
			f.SetInt(i)
		default:
			panic(MissingMethod{fmt.Sprintf("%s: %s.%s is a %s", s.Pkg.Name, t, k, f.Type())})
		}
	}
	return v
}

// Call calls a method of the controller, building its arguments by type:
// context, parameters (struct ...Parameters), channel address (string), message
// (struct ...Message), subscription function or publication callback.
func (s *Side) Call(name string, ctx context.Context, p Params, addr string, msg any, fn func(ctx context.Context, msg any) error, pub func(ctx context.Context) error) []reflect.Value {
	m := s.method(name)
	t := m.Type()
	args := make([]reflect.Value, 0, t.NumIn())
	ctxT := reflect.TypeOf((*context.Context)(nil)).Elem()
	for i := 0; i < t.NumIn(); i++ {
		a := t.In(i)
		switch {
		case a == ctxT:
			args = append(args, reflect.ValueOf(&ctx).Elem())
		case a.Kind() == reflect.Struct && strings.HasSuffix(a.Name(), "Parameters"):
			args = append(args, s.params(a, p))
		case a.Kind() == reflect.String:
			args = append(args, reflect.ValueOf(addr).Convert(a))
		case a.Kind() == reflect.Struct:
			v := reflect.ValueOf(msg)
			if v.Kind() == reflect.Pointer {
				v = v.Elem()
			}
			args = append(args, v)
		case a.Kind() == reflect.Interface: // v2 WaitFor: MessageWithCorrelationID
			args = append(args, reflect.ValueOf(msg))
		case a.Kind() == reflect.Func && a.NumIn() == 2:
			if fn == nil {
				args = append(args, reflect.Zero(a))
				break
			}
			args = append(args, reflect.MakeFunc(a, func(in []reflect.Value) []reflect.Value {
				ev := reflect.New(reflect.TypeOf((*error)(nil)).Elem()).Elem()
				if err := fn(in[0].Interface().(context.Context), in[1].Interface()); err != nil {
					ev.Set(reflect.ValueOf(err))
				}
				return []reflect.Value{ev}
			}))
		case a.Kind() == reflect.Func && a.NumIn() == 1 && a.In(0) == ctxT:
			args = append(args, reflect.ValueOf(pub).Convert(a))
		case a.Kind() == reflect.Func && a.NumIn() == 1: // ReplyTo: func(*ReplyMsg)
			args = append(args, reflect.MakeFunc(a, func(in []reflect.Value) []reflect.Value {
				if fn != nil {
					_ = fn(ctx, in[0].Interface())
				}
				return nil
			}))
		default:
			panic(MissingMethod{fmt.Sprintf("%s: unexpected argument %s in %s", s.Pkg.Name, a, name)})
		}
	}
	return m.Call(args)
}

// Err is Call for methods that return nothing or an error.
func (s *Side) Err(name string, ctx context.Context, p Params, addr string, msg any, fn func(ctx context.Context, msg any) error, pub func(ctx context.Context) error) error {
	out := s.Call(name, ctx, p, addr, msg, fn, pub)
	if len(out) == 0 {
		return nil
	}
	return asErr(out[len(out)-1])
}

// SubscribeAll calls SubscribeToAllChannels (v3) or SubscribeAll (v2), with a
// nil subscriber if fn is nil.
func (s *Side) SubscribeAll(name string, ctx context.Context, fn SubFn) error {
	m := s.method(name)
	var arg reflect.Value
	if fn == nil {
		arg = reflect.Zero(m.Type().In(1))
	} else {
		arg = reflect.ValueOf(s.Pkg.Subscribers[s.Name](fn))
	}
	return asErr(m.Call([]reflect.Value{reflect.ValueOf(&ctx).Elem(), arg})[0])
}

// NewMsg calls New<name>() and returns a pointer to the message.
func (p *Pkg) NewMsg(name string) reflect.Value {
	f, ok := p.Funcs["New"+name]
	if !ok {
		panic(MissingMethod{fmt.Sprintf("%s: no function New%s", p.Name, name)})
	}
	v := reflect.ValueOf(f).Call(nil)[0]
	ptr := reflect.New(v.Type())
	ptr.Elem().Set(v)
	return ptr
}

// Field returns the field at a dotted path of go names, allocating pointers if
// alloc, otherwise returning an invalid value on a nil pointer.
func Field(v reflect.Value, path string, alloc bool) reflect.Value {
	for _, n := range strings.Split(path, ".") {
		for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
			if v.IsNil() {
				if !alloc {
					return reflect.Value{}
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			panic(MissingMethod{fmt.Sprintf("no field %s in %s", path, v.Type())})
		}
		f := v.FieldByName(n)
		if !f.IsValid() {
			panic(MissingMethod{fmt.Sprintf("no field %s (%s) in %s", n, path, v.Type())})
		}
		v = f
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			if !alloc {
				return reflect.Value{}
			}
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	return v
}

// SetStr sets a string field.
func SetStr(msg any, path, val string) {
	v := reflect.ValueOf(msg)
	Field(v, path, true).SetString(val)
}

// GetStr gets a string field ("" if unset).
func GetStr(msg any, path string) string {
	v := Field(reflect.ValueOf(msg), path, false)
	if !v.IsValid() {
		return ""
	}
	return v.String()
}

// ClearField zeroes a field.
func ClearField(msg any, path string) {
	v := reflect.ValueOf(msg).Elem()
	names := strings.Split(path, ".")
	for i, n := range names {
		for v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		v = v.FieldByName(n)
		if i == len(names)-1 {
			v.Set(reflect.Zero(v.Type()))
		}
	}
}
