package core

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

// Errors injected by the harness.
var (
	ErrSubscribe = errors.New("injected broker subscription failure")
	ErrPublish   = errors.New("injected broker publication failure")
	ErrHandler   = errors.New("injected handler failure")
)

// Msg makes a broker message.
func Msg(payload string, headers ...string) extensions.BrokerMessage {
	h := map[string][]byte{}
	for i := 0; i+1 < len(headers); i += 2 {
		h[headers[i]] = []byte(headers[i+1])
	}
	return extensions.BrokerMessage{Headers: h, Payload: []byte(payload)}
}

// CloneMsg copies a broker message.
func CloneMsg(m extensions.BrokerMessage) extensions.BrokerMessage {
	c := extensions.BrokerMessage{Payload: append([]byte{}, m.Payload...)}
	if m.Headers != nil {
		c.Headers = map[string][]byte{}
		for k, v := range m.Headers {
			c.Headers[k] = append([]byte{}, v...)
		}
	}
	return c
}

// Show gives a canonical representation of a broker message.
func Show(m extensions.BrokerMessage) string {
	ks := make([]string, 0)
	for k := range m.Headers {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q ", k, m.Headers[k])
	}
	fmt.Fprintf(&b, "%q", m.Payload)
	return b.String()
}

// Ack is an acknowledgement that records what is called.
type Ack struct{ OnAck, OnNak func() }

// AckMessage records a positive acknowledgement.
func (a Ack) AckMessage() {
	if a.OnAck != nil {
		a.OnAck()
	}
}

// NakMessage records a negative acknowledgement.
func (a Ack) NakMessage() {
	if a.OnNak != nil {
		a.OnNak()
	}
}

// Sub is a subscription made on the fake broker.
type Sub struct {
	Channel string
	N       int // number of the subscription on this channel, from 1
	extensions.BrokerChannelSubscription
	mu       sync.Mutex
	Canceled bool
}

// Broker is a fake broker controller that does what the hooks tell.
type Broker struct {
	mu   sync.Mutex
	Subs []*Sub
	// QueueSize is the capacity of the queue of the subscriptions
	QueueSize int
	// OnSubscribe is called when subscribing, its error is returned
	OnSubscribe func(ctx context.Context, channel string) error
	// OnSubscribed is called with the new subscription
	OnSubscribed func(ctx context.Context, s *Sub)
	// OnPublish is called when publishing, its error is returned
	OnPublish func(ctx context.Context, channel string, m extensions.BrokerMessage) error
	// OnCancel is called by the clean up of a subscription
	OnCancel func(s *Sub)
}

var _ extensions.BrokerController = (*Broker)(nil)

// Publish implements extensions.BrokerController.
func (b *Broker) Publish(ctx context.Context, channel string, m extensions.BrokerMessage) error {
	if b.OnPublish != nil {
		return b.OnPublish(ctx, channel, m)
	}
	return nil
}

// Subscribe implements extensions.BrokerController.
func (b *Broker) Subscribe(ctx context.Context, channel string) (extensions.BrokerChannelSubscription, error) {
	if b.OnSubscribe != nil {
		if err := b.OnSubscribe(ctx, channel); err != nil {
			return extensions.BrokerChannelSubscription{}, err
		}
	}
	size := b.QueueSize
	if size == 0 {
		size = 64
	}
	s := &Sub{
		Channel: channel,
		BrokerChannelSubscription: extensions.NewBrokerChannelSubscription(
			make(chan extensions.AcknowledgeableBrokerMessage, size), make(chan any, 1)),
	}
	b.mu.Lock()
	s.N = 1
	for _, o := range b.Subs {
		if o.Channel == channel {
			s.N++
		}
	}
	b.Subs = append(b.Subs, s)
	b.mu.Unlock()
	s.WaitForCancellationAsync(func() {
		s.mu.Lock()
		s.Canceled = true
		s.mu.Unlock()
		if b.OnCancel != nil {
			b.OnCancel(s)
		}
	})
	if b.OnSubscribed != nil {
		b.OnSubscribed(ctx, s)
	}
	return s.BrokerChannelSubscription, nil
}

// IsCanceled tells if the clean up of the subscription has been called.
func (s *Sub) IsCanceled() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Canceled
}

// Last returns the last subscription on a channel (nil if none).
func (b *Broker) Last(channel string) *Sub {
	b.mu.Lock()
	defer b.mu.Unlock()
	for i := len(b.Subs) - 1; i >= 0; i-- {
		if b.Subs[i].Channel == channel {
			return b.Subs[i]
		}
	}
	return nil
}

// All returns the subscriptions.
func (b *Broker) All() []*Sub {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]*Sub{}, b.Subs...)
}

// CtxInfo is what is known by a context.
type CtxInfo struct {
	Version, Provider, Channel, Direction, Message, CorrelationID string
}

// GetCtx reads the values of a context.
func GetCtx(ctx context.Context) CtxInfo {
	get := func(k extensions.ContextKey) string {
		s := "-"
		v := ctx.Value(k)
		if v == nil {
			return s
		}
		if x, ok := v.(string); ok {
			return x
		}
		return fmt.Sprintf("%T", v)
	}
	return CtxInfo{
		Version:       get(extensions.ContextKeyIsVersion),
		Provider:      get(extensions.ContextKeyIsProvider),
		Channel:       get(extensions.ContextKeyIsChannel),
		Direction:     get(extensions.ContextKeyIsDirection),
		Message:       get(extensions.ContextKeyIsBrokerMessage),
		CorrelationID: get(extensions.ContextKeyIsCorrelationID),
	}
}
