package main

import (
	"errors"
	"reflect"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

func reflectOf(msg any) reflect.Value {
	v := reflect.ValueOf(msg)
	if v.Kind() != reflect.Pointer {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p
	}
	return v
}

func isHandlerErr(err error) bool { return errors.Is(err, core.ErrHandler) }

// resOfCall abstracts the result of a call of a controller.
func resOfCall(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, extensions.ErrAlreadySubscribedChannel):
		return "already"
	case errors.Is(err, core.ErrSubscribe):
		return "broker"
	case errors.Is(err, core.ErrPublish):
		return "publish"
	case errors.Is(err, extensions.ErrNilAppSubscriber), errors.Is(err, extensions.ErrNilUserSubscriber):
		return "nil subscriber"
	case errors.Is(err, extensions.ErrContextCanceled):
		return "context"
	case errors.Is(err, extensions.ErrSubscriptionCanceled):
		return "canceled"
	case errors.Is(err, extensions.ErrNoCorrelationIDSet):
		return "no correlation"
	case errors.Is(err, extensions.ErrChannelAddressEmpty):
		return "empty address"
	}
	return "? " + err.Error()
}
